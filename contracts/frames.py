"""C15: no generator writes to the model. One frame contract per function of the generators that is under contract: the run of its real
source leaves every field of every model object, and every list in one, as it was; callees are seen through their contracts."""
from .schema import CONTRACTS
from pyvc.contract import Contract

PLACES = ("asn1_parser.generators.", "asn1_parser.c_printer", "asn1_parser.utils.size")
for _c in list(CONTRACTS):
    if _c.target.startswith(PLACES) and "__init__" not in _c.target and _c.ensures is None and not _c.assumed and _c.mode != "strfunc" and "[" not in _c.name:
        _f = Contract(_c.target, _c.spec, _c.params, requires=_c.requires, variants=_c.variants, setup=_c.setup, merge=_c.merge, loops=_c.loops,
                      opaque_calls=_c.opaque_calls, props=["C15"], frame=True)
        _f.name = f"{_c.target} [frame]"
        CONTRACTS.append(_f)
