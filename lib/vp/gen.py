""" shared Hypothesis strategies """
from hypothesis import strategies as st

# everything that can be written in a UTF-8 file
ANY_CHAR = st.characters(exclude_categories=["Cs"])

SPECIAL = ["\0", "\t", "\x0b", "\x0c", "\x1c", "\x1d", "\x1e", "\x85", "\u2028", "\u2029", "\ufeff", "\x1b", "\x7f",
           "½", "²", "٣", "é", "e\u0301", "\u00a0", "\u3000", "漢", "😀", "ß", "|", "*", "#", "?", "!", "`", "\\", "'", '"',
           "$", "&", ";", "<", ">", "-", "+", ".", ",", ":", "=", "_", "%", "/", "~", "(", ")", "[", "]", "{", "}"]

WORD = st.text(alphabet="abcxyz", min_size=1, max_size=5)
NUMBER = st.sampled_from(["0", "1", "7", "12", "3.14", "-1", "+2", "-0.5", "1.0", "10.25", "1.", ".5", "1.2.3", "--1", "1e5", "007"])

# pieces of a line
PIECE = st.one_of(
    WORD,
    NUMBER,
    st.sampled_from([" ", "  ", "\t", " \t ", ", ", ": ", " = ", "..", "-", "+", "|"]),
    st.sampled_from(SPECIAL),
    st.text(alphabet=st.characters(exclude_categories=["Cs"], exclude_characters="\r\n"), max_size=6),
)

LINE = st.lists(PIECE, max_size=6).map("".join)

NONEMPTY_LINE = LINE.filter(lambda x: len(x) > 0)

BREAK = st.sampled_from(["\n", "\n", "\n", "\r\n", "\r", "\n\n", "\r\r\n"])

# text possibly of several lines and with any line break style
TEXT = st.one_of(
    LINE,
    LINE,
    st.lists(st.one_of(LINE, BREAK), max_size=6).map("".join),
)

SIMPLE_LINE = st.lists(st.sampled_from(["foo", "bar", "a", "b", "1", "2.5", "-3", " ", ", ", "(", ")"]),
                       min_size=1, max_size=6).map("".join)


def unique_lists(elements, **kw):
    return st.lists(elements, unique=True, **kw)
