"""Deterministic simulation of koreo-core: engine, simulated cluster, workloads."""
