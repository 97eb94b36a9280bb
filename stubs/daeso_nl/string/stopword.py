"""stand-in for the missing Dutch language module"""
import string

STOPWORDS = frozenset(("de", "het"))


def remove_stopwords(tokens, ignore_case=False, remove_punc=False):
    return [t for t in tokens
            if (t.lower() if ignore_case else t) not in STOPWORDS and
            not (remove_punc and all(c in string.punctuation for c in t))]
