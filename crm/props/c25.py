"""C25: a message table keeps each message, in order and in its category, and counts them."""

from __future__ import annotations

import itertools
from typing import Any, Iterator

from conda_recipe_manager.types import MessageCategory, MessageTable
from crm.core import Out

ID = "C25"
LEVEL = "model_checking"
TECHNIQUE = "all sequences of operations up to a depth on the real table, in lockstep with a reference model"
RULE = "All sequences of up to 6 (8 thorough) operations (adding to each category, clearing, reading), and all numbers of errors, warnings and exceptions up to 12. Non-trivial: distinct sequences."
ASSUMPTIONS = ["none"]
CHUNK = 4

OPS: list[Any] = [*MessageCategory, "clear", "read"]


def totals(model: dict[Any, list[str]]) -> str:
    if not any(model.values()):
        return ""
    e, w = len(model.get(MessageCategory.ERROR, [])), len(model.get(MessageCategory.WARNING, []))
    return f"{e} error{'' if e == 1 else 's'} and {w} warning{'' if w == 1 else 's'} were found."


def cases(tier: str) -> Iterator[Any]:
    for a, b in itertools.product(range(len(OPS)), repeat=2):
        yield ["sequences", a, b, 4 if tier == "quick" else 6]
    yield ["counts"]
    yield ["tables"]


def compare(t: MessageTable, model: dict[Any, list[str]], what: Any, out: Out) -> None:
    for c in MessageCategory:
        out.expect(list(t.get_messages(c)), model.get(c, []), "messages", f"{c} messages after {what}")
        out.expect(t.get_message_count(c), len(model.get(c, [])), "count", f"number of {c} messages after {what}")
    out.expect(t.get_totals_message(), totals(model), "totals", f"totals after {what}")
    out.trace()


def check(case: Any, out: Out) -> None:
    kind = case[0]
    out.outcome(kind)
    if kind == "sequences":
        for k in range(case[3] + 1):
            for rest in itertools.product(range(len(OPS)), repeat=k):
                seq = [case[1], case[2], *rest]
                t = MessageTable()
                model: dict[Any, list[str]] = {}
                out.nt(tuple(seq))
                for n, i in enumerate(seq):
                    op = OPS[i]
                    out.step()
                    if op == "clear":
                        t.clear_messages()
                        model = {}
                    elif op == "read":
                        compare(t, model, [OPS[j] for j in seq[: n + 1]], out)
                    else:
                        # The same message can come up several times
                        message = f"m{n % 2}"
                        t.add_message(op, message)
                        model.setdefault(op, []).append(message)
                out.state(str(model))
                compare(t, model, [str(OPS[j]) for j in seq], out)
    elif kind == "counts":
        for e, w, x in itertools.product(range(13), repeat=3):
            t = MessageTable()
            model = {}
            order = [MessageCategory.ERROR] * e + [MessageCategory.WARNING] * w + [MessageCategory.EXCEPTION] * x
            out.nt(e, w, x)
            for i, c in enumerate(order[::2] + order[1::2]):
                t.add_message(c, f"é {i}\nx")
                model.setdefault(c, []).append(f"é {i}\nx")
            compare(t, model, f"{e} errors, {w} warnings, {x} exceptions", out)
    else:
        # Tables have nothing to do with each other
        a, b = MessageTable(), MessageTable()
        a.add_message(MessageCategory.ERROR, "x")
        out.nt("two")
        compare(b, {}, "messages in another table", out)
        b.add_message(MessageCategory.WARNING, "")
        b.clear_messages()
        compare(a, {MessageCategory.ERROR: ["x"]}, "clearing another table", out)
