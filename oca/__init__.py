"""OpenConcept static analyser: abstract interpretation of the component
sources into a value graph; nothing of /repo is imported or executed."""
