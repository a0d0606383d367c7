"""Stand-in for ctapipe, written from how CHECLabPy uses it (ctapipe is not installed here).
The extractor functions follow the definitions of ctapipe 0.7/0.8."""
