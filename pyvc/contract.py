"""Declaration of contracts."""


def contract(props, functions, split=None, bounded=False, stubs=None, runs=1.0, seconds=200.0):
    """
    props: properties some obligations of the contract belong to
    functions: the functions of the code under test it specifies
    split: {name of a choice: number of its options}, to share the exploration among processes
    bounded: not a contract to discharge, but a bounded check by random runs of the real code
    """

    def deco(f):
        f.props = props.split()
        f.functions = functions.split()
        f.split = dict(split or {})
        f.bounded = bounded
        f.stubs = stubs
        f.runs = runs
        f.seconds = seconds
        return f

    return deco
