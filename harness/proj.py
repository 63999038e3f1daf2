"""Projection of the library's public command classes to the specification's
abstract syntax (as JSON)."""
from __future__ import annotations

from dynamicprompts.commands import (
    LiteralCommand, SequenceCommand, VariantCommand, WildcardCommand, WrapCommand,
)
from dynamicprompts.commands.variable_commands import (
    VariableAccessCommand, VariableAssignmentCommand,
)
from dynamicprompts.enums import SamplingMethod

METHOD = {
    None: "", SamplingMethod.RANDOM: "R", SamplingMethod.COMBINATORIAL: "C",
    SamplingMethod.CYCLICAL: "Y",
}
BAD = {"t": "bad"}


def proj(c):
    if isinstance(c, LiteralCommand):
        return {"t": "lit", "s": c.literal}
    if isinstance(c, SequenceCommand):
        r = {"t": "seq", "xs": [proj(x) for x in c.tokens]}
        if c.separator != "" or c.sampling_method is not None:
            r["odd"] = f"{c.separator}|{c.sampling_method}"
        return r
    if isinstance(c, VariantCommand):
        return {
            "t": "var", "opts": [{"w": round(o.weight * 1000), "v": proj(o.value)} for o in c.variants],
            "lo": c.min_bound, "hi": c.max_bound, "sep": c.separator, "m": METHOD[c.sampling_method],
        }
    if isinstance(c, WildcardCommand):
        p = c.wildcard
        return {
            "t": "wc", "path": {"t": "lit", "s": p} if isinstance(p, str) else proj(p),
            "m": METHOD[c.sampling_method],
            "vars": [{"n": n, "v": proj(v)} for n, v in c.variables.items()],
        }
    if isinstance(c, VariableAccessCommand):
        return {"t": "get", "n": c.name, "d": {"t": "none"} if c.default is None else proj(c.default)}
    if isinstance(c, VariableAssignmentCommand):
        return {"t": "set", "n": c.name, "v": proj(c.value), "imm": bool(c.immediate), "ow": bool(c.overwrite)}
    if isinstance(c, WrapCommand):
        return {"t": "wrap", "w": proj(c.wrapper), "i": proj(c.inner)}
    return {"t": "?" + type(c).__name__}
