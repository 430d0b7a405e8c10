class Steps:
    """Counter of model steps (blocks, expressions, tag applications executed)."""
    n = 0
