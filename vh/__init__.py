"""Conformance harness binding the TLA+ specification in /verif/spec to graphix in /repo."""
