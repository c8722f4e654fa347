def _same(f):
    return f


from_fn = from_gen_fn = from_test = _same
