"""C01: the Output algebra preserves value, knownness, secretness and dependencies."""
from .. import outcheck

LEVEL = "model_checking"
RULE = ("every Output expression of the listed shape groups (leaf kinds x unary/binary combinators up to depth 3) x deployment mode x every "
        "order in which the environment resolves the leaves (within the per-group deviation budget; 'split' delivers value/known/secret/deps of one leaf separately). "
        "Each execution of the real SDK is compared with the reference semantics; distinct = distinct (expression, mode, observation).")
ASSUMPTIONS = ["leaf alphabet: strings, None, nested dict/list, unknown, partly unknown, failing", "in updates (not preview) only known leaves occur",
               "values outside the alphabet and trees deeper than 3 are not covered"]


def items(tier, seed):
    return outcheck.items(tier, seed)


def work(st, item):
    outcheck.work(st, item, "value")


def replay(case):
    return outcheck.replay(case, "value")
