# -*- coding: utf-8 -*-
"""
C32 - the script of a label, the language and the script of a tag.

Space: every label up to a length over representatives of all the kinds of scripts (every code point, alone); every language of the
registry, in every shape of tag; every script of it; every list of languages of an LGR up to a length over a pool of shapes.
Oracle: the scripts of the code points (Unicode database), and the IANA registry itself, read on its own.
"""
import functools
import itertools
import json
import os

from mc import lgrspec as S

PROPERTY = 'C32'
LEVEL = 'model_checking'
RULE = 'a case is one label, tag or list of languages; non trivial = distinct results'
ALPHA = 'a\u044f\u6f22\u3042\u30a2\ud55c\u30fc\u3006-1\u0301\u05d0'
# shape of a tag -> its script, its suppression of it
SHAPES = ['%s', '%s-Latn', '%s-Cyrl', '%s-US', '%s-Hant-TW', '%s-419', '%s-Arab-x-p', '%s-x-y', '%s-yue-Hant', '%s-Latn-DE-1996']
POOL = ['und-Latn', 'und-Jpan', 'en', 'ja', 'ko', 'zh', 'sr', 'sr-Cyrl', 'und-Hrkt', 'und-Aran', 'fr-FR', 'und-Kore', 'xx', 'und-Latf', 'ru', 'zh-Hans', 'und-Geok', 'und-Syrj', 'qaa', 'en-Zzzz', 'xx-Cyrl']
UNICODE = {'Aran': ['Arab'], 'Geok': ['Geor'], 'Hans': ['Hani'], 'Hant': ['Hani'], 'Hrkt': ['Hira', 'Kana'], 'Jpan': ['Hani', 'Hira', 'Kana'], 'Kore': ['Hani', 'Hang'],
           'Latf': ['Latn'], 'Latg': ['Latn'], 'Syre': ['Syrc'], 'Syrj': ['Syrc'], 'Syrn': ['Syrc']}
BOUNDS = {'quick': 'all labels of length <= 4 over %d characters, all code points; all languages of the registry x %d shapes of tags; all its scripts; lists of <= 2 languages '
                   'of %d' % (len(ALPHA), len(SHAPES), len(POOL)),
          'thorough': 'labels of length <= 5; lists of <= 3 languages'}
ASSUMPTIONS = ['a language alone (no hyphen) is one of the registry', 'the script of a code point is the one of the Unicode database (ICU)', 'the IANA registry of language_tags and the codes of pycountry, read as data, are right']


@functools.lru_cache(None)
def registry():
    import language_tags
    with open(os.path.join(os.path.dirname(language_tags.__file__), 'data', 'json', 'registry.json')) as f:
        return json.load(f)


@functools.lru_cache(None)
def languages():
    return {r['Subtag']: r for r in registry() if r['Type'] == 'language' and '..' not in r['Subtag']}


@functools.lru_cache(None)
def scripts():
    return [r['Subtag'] for r in registry() if r['Type'] == 'script' and '..' not in r['Subtag']]


@functools.lru_cache(None)
def codes():
    """The languages of the registry, and the other codes of those which have one of two letters (RFC 5646 tags ignore case)."""
    import pycountry
    other = [c for l in pycountry.languages if getattr(l, 'alpha_2', None) for c in (l.alpha_3, l.alpha_3.upper(), getattr(l, 'bibliographic', None)) if c]
    return sorted(set(languages()) | set(other))


@functools.lru_cache(None)
def short(lang):
    """The code of two letters of a language, if any."""
    import pycountry
    for l in pycountry.languages:
        if lang.lower() in (l.alpha_3, getattr(l, 'bibliographic', None)):
            return getattr(l, 'alpha_2', None) or lang
    return lang


# -- labels -----------------------------------------------------------------------------------------------------------------------

def want_label(label):
    """The first character of a script of its own tells it; with Japanese syllabaries after, ideographs are Japanese."""
    db = S.icu_db()
    own = [s for s in (db.get_script(c, alpha4=True) for c in label)]
    if not own:
        return None
    first = [s for s in own if s not in ('Zyyy', 'Zinh')][:1]
    if not first:
        return {'und-Jpan'} if '\u3006' in label or '\u30fc' in label else {'und-' + s for s in own}
    if first[0] in ('Hira', 'Kana') or first[0] == 'Hani' and {'Hira', 'Kana'} & set(own):
        return {'und-Jpan'}
    return {'und-Kore' if first[0] == 'Hang' else 'und-' + first[0]}


def run_label(label, st):
    from lgr.tools.utils import get_rz_label_script
    st.step()
    st.evaluations += 1
    st.trace()
    try:
        got = get_rz_label_script(label, S.icu_db())
    except Exception as e:
        got = repr(e)
    want = want_label(label)
    st.outcome(got)
    if got != want and (want is None or got not in want):
        st.violation('label', 'the script of %r (%s) is %r instead of %r' % (label, ' '.join('%04X' % ord(c) for c in label), got, want), {'label': label})


# -- tags -------------------------------------------------------------------------------------------------------------------------

def run_tag(lang, shape, suppress, st):
    from lgr.utils import tag_to_language_script
    tag = shape % lang
    st.step()
    st.evaluations += 1
    st.trace()
    try:
        got = tuple(x or '' for x in tag_to_language_script(tag, use_suppress_script=suppress))
    except Exception as e:
        got = repr(e)
    st.outcome(got)
    code = short(lang) if '-' in tag and len(lang) == 3 else lang
    script = next((p for p in tag.split('-')[1:] if len(p) == 4 and p.isalpha() and '-x-' not in tag[:tag.index(p)]), '')
    if not script and suppress:
        script = languages().get(code, {}).get('Suppress-Script', '')
    if not script and code == 'zh':
        script = 'Hani'
    want = ('' if code == 'und' else code, script)
    if got != want:
        st.violation('tag', 'the language and script of %s%s are %r instead of %r' % (tag, ' (with the usual script)' if suppress else '', got, want),
                     {'lang': lang, 'shape': shape, 'suppress': suppress})


def scripts_of(tag):
    """Unicode scripts of a tag of the pool."""
    parts = tag.split('-')
    script = next((p for p in parts[1:] if len(p) == 4), None) or languages().get(parts[0], {}).get('Suppress-Script')
    return UNICODE.get(script, [script]) if script else []


def valid(tag):
    return tag[:2] != 'xx'      # the pool is made of valid ones, but for it


def run_languages(tags, st):
    """The scripts of an LGR, as languages are added, and removed."""
    from lgr.metadata import Metadata
    m = Metadata()
    done = []
    history = [('add', t) for t in tags] + [('del', i) for i in range(len(tags) - 1, -1, -1)]
    for op, x in history:
        st.step()
        st.evaluations += 1
        if op == 'add':
            m.add_language(x, force=True)
            done.append(x)
        else:
            done.pop(0)
            m.set_languages(list(done), force=True)
        for invalid in ((False, True) if len(done) % 2 else (True, False)):
            want = [s for t in done if invalid or valid(t) for s in scripts_of(t)]
            try:
                got = list(m.get_scripts(allow_invalid=invalid))
            except Exception as e:
                got = repr(e)
            st.outcome(repr(got))
            if sorted(got) != sorted(want) and (sorted(set(got)) != sorted(set(want))):
                st.violation('languages', 'the scripts of %r are %r instead of %r (%s)' % (done, got, want, 'with' if invalid else 'but for' + ' invalid ones'),
                             {'tags': list(tags)})
    st.trace()


def run_script(script, st):
    from lgr.utils import script_iso15924_to_unicode
    st.step()
    st.evaluations += 1
    st.trace()
    got, want = script_iso15924_to_unicode(script), UNICODE.get(script, [script])
    st.outcome(repr(got))
    if sorted(got) != sorted(want):
        st.violation('script', 'the Unicode scripts of %s are %r instead of %r' % (script, got, want), {'script': script})


# -- exploration --------------------------------------------------------------------------------------------------------------------

def shards(tier):
    return [['labels', c] for c in range(len(ALPHA))] + [['points', k] for k in range(4)] + [['tags', k] for k in range(len(SHAPES))] + [['lists', k] for k in range(4)]


def run_shard(shard, st):
    kind, k = shard
    deep = st.tier != 'quick'
    n = 0
    if kind == 'labels':
        if k == 0:
            run_label('', st)
        for length in range(0, 5 if deep else 4):
            for t in itertools.product(ALPHA, repeat=length):
                st.state(('l', k, t))
                run_label(ALPHA[k] + ''.join(t), st)
                n += 1
    elif kind == 'points':
        for c in range(k, 0x110000, 4):
            if 0xd800 <= c < 0xe000:
                continue
            st.state(c)
            run_label(chr(c), st)
            n += 1
    elif kind == 'tags':
        for lang in codes() if '-' in SHAPES[k] else sorted(languages()):
            for suppress in (False, True):
                st.state((lang, k, suppress))
                run_tag(lang, SHAPES[k], suppress, st)
                n += 1
    else:
        for length in range(0, 4 if deep else 3):
            for t in itertools.product(POOL, repeat=length):
                n += 1
                if n % 4 == k:
                    st.state(t)
                    run_languages(t, st)
        if k == 0:
            for s in scripts():
                st.state(s)
                run_script(s, st)
    st.sample({'part': shard, 'cases': n})


def replay(case, st):
    if 'label' in case:
        run_label(case['label'], st)
    elif 'lang' in case:
        run_tag(case['lang'], case['shape'], case['suppress'], st)
    elif 'tags' in case:
        run_languages(tuple(case['tags']), st)
    else:
        run_script(case['script'], st)
