"""Only imported by the backend, not used."""
ndarray = object
