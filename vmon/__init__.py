"""Runtime monitors for exact_diag: workloads, hooks and oracles (see DESIGN.md)."""
