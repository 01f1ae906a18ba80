"""Shared property-based-testing harness for the mt_metadata checks."""
