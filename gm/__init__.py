"""Runtime-monitoring machinery for golem_messages (see /verif/DESIGN.md)."""
