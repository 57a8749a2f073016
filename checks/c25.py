from hypothesis import strategies as st

import booktest as bt
from vp import gen
from vp.core import Campaign, check, check_eq
from vp.world import ref_tokens

PROPERTY = "C25"
RULE = ("texts from runs of letters, digits, signs, dots, blanks, special and arbitrary Unicode characters; "
        "non-trivial: at least 3 tokens and a sign, dot, blank or special character")

CHARS = st.one_of(
    st.sampled_from(list("ab1290+-.  \t")),
    st.sampled_from(gen.SPECIAL),
    gen.ANY_CHAR,
)
TEXTS = st.one_of(
    st.text(alphabet=st.sampled_from(list("a1+-. ")), max_size=14),
    st.lists(CHARS, max_size=20).map("".join),
    gen.TEXT,
    st.text(alphabet=gen.ANY_CHAR, max_size=12),
)


def drain(tokens, limit):
    rv = []
    for token in tokens:
        rv.append(token)
        check(len(rv) <= limit, "more tokens than characters:", rv[:20])
    return rv


def tokens_oracle(case, ctx):
    text = case
    tokens = drain(bt.TestTokenizer(text), len(text))
    ctx.label("tokens", len(tokens))
    ctx.nontrivial(len(tokens) >= 3 and any(not c.isalpha() for c in text))
    check(all(isinstance(t, str) and len(t) > 0 for t in tokens), "empty token in", tokens)
    check_eq("".join(tokens), text, "tokens do not make the text")
    # numeric characters other than decimal digits belong to numbers or to words, nothing else is asked for
    if all(c.isdecimal() or not c.isnumeric() for c in text):
        check_eq(tokens, ref_tokens(text), "tokens of", text)
        ctx.label("exact")


def buffer_oracle(case, ctx):
    text, ops = case
    plain = drain(bt.TestTokenizer(text), len(text))
    it = bt.BufferIterator(bt.TestTokenizer(text))
    got = []
    # look-ahead at arbitrary times never changes what is read
    for op in ops:
        k = len(got)
        check_eq(bool(it.has_next()), k < len(plain), "has_next after", k, "tokens of", text)
        if op == "head":
            check_eq(it.head, plain[k] if k < len(plain) else None, "look-ahead after", k, "tokens of", text)
        elif k < len(plain):
            got.append(next(it))
            check_eq(got[-1], plain[k], "token", k, "of", text)
        else:
            try:
                v = next(it)
            except StopIteration:
                ctx.label("stop")
            else:
                check(False, "token", v, "after the end of", text)
    ctx.nontrivial(len(got) >= 2 and "head" in ops)
    rest = drain(it, len(text) - len(got) + 1)
    check_eq(got + rest, plain, "buffered tokens of", text)
    again = drain(bt.BufferIterator(iter(plain)), len(text))
    check_eq(again, plain, "buffered iteration of a list iterator")


def at_oracle(case, ctx):
    text, at = case
    at = min(at, len(text))
    tokens = drain(bt.TestTokenizer(text, at), len(text))
    check_eq("".join(tokens), text[at:], "tokens from", at)
    ctx.nontrivial(at > 0 and len(tokens) > 1)
    t = bt.TestTokenizer(text, at)
    seen = ""
    while t.has_next():
        token = next(t)
        check(len(token) > 0, "empty token")
        seen += token
    check_eq(seen, text[at:], "tokens from", at)
    try:
        v = next(t)
    except StopIteration:
        return
    check(False, "token after the end", v)


def short_texts():
    """ all texts of up to 5 characters over an alphabet with one of each kind """
    import itertools
    for n in range(0, 6):
        for c in itertools.product("a1+. -\0"[:7], repeat=n):
            yield "".join(c)


CAMPAIGNS = [
    Campaign("short", None, tokens_oracle, 0, 0, sequence=short_texts, hang_s=10),
    Campaign("tokens", lambda: TEXTS, tokens_oracle, 24000, 1500000, hang_s=10),
    Campaign("buffer", lambda: st.tuples(TEXTS, st.lists(st.sampled_from(["head", "next", "next"]), max_size=16)).map(list),
             buffer_oracle, 8000, 300000, hang_s=10),
    Campaign("at", lambda: st.tuples(TEXTS, st.integers(0, 8)).map(list), at_oracle, 4000, 100000, hang_s=10),
]
