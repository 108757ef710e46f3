"""Deterministic simulation of ZKAPAuthorizer with fault injection."""
