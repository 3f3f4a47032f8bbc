"""Runtime-monitoring harness for ocfl-py."""
