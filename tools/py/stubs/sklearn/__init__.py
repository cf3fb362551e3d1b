"""Stand-in for the parts of scikit-learn that the package imports (scikit-learn is not installed)."""
