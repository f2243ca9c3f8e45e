"""Runtime-monitoring harness for sunspec/pysunspec."""
