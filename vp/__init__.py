"""Property-based verification harness for coreax."""
