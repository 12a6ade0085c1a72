"""What each check takes for granted; goes into the evidence files."""
COMMON = [
    "TLC and the exact rational operators of spec/java (self-tested against TLA+ definitions by tools/setup.py) are right",
    "the recorder passes on exactly what the public callables of the code received and returned",
    "numba is absent here, so the njit kernels run as the Python they are written in",
    "conformance is decided on the generated inputs; only the design-level models are exhaustive, for their constants",
]
SPECIFIC = {
    "C01": ["oracles given by the user are valid: x + s d is feasible for 0 <= s <= the announced maximum"],
    "C03": ["the objective and gradient given by the user agree with each other"],
    "C05": ["singular value decompositions supplied as witnesses are verified by the specification before use"],
    "C06": ["singular value decompositions supplied as witnesses are verified by the specification before use"],
    "C07": ["the accuracy of the 2-D operator is decided to max(100 tol, 3e-6) only"],
    "C11": ["stationarity is decided to the accuracy float arithmetic allows, about 8 sqrt(eps (1+|f|) L)"],
    "C12": ["minimizers supplied as witnesses are verified by the specification before use"],
    "C13": ["minimizers supplied as witnesses are verified by the specification before use"],
    "C14": ["stored zeros count as part of a sample's support"],
    "C15": ["the loss passed as f_deriv is the derivative of a smooth function"],
    "C17": ["freshness of the orders is decided with error probability below 1e-12"],
    "C22": ["a stand-in for the HTTPS handler behaves like the network; rename within a directory is atomic"],
}


def of(prop):
    return COMMON + SPECIFIC.get(prop, [])
