"""Shared machinery of the qosy model-checking harness."""
