import re


def cname(f):
    """stable name of a function: no line numbers, lambdas anonymised"""
    return re.sub(r"\(lambda at [^)]*\)", "lambda", re.sub(r"\(unnamed [^)]*\)", "anon", f.p))
