"""P08: text searches find every verbatim occurrence, at its exact position."""
import itertools

from mc.core import check_equal

from sciencebeam_trainer_grobid_tools.utils.fuzzy import (
    fuzzy_search_index_range,
    fuzzy_search_index_range_chunks,
    iter_fuzzy_search_all_index_ranges
)

PROPERTY = 'P08'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'the alignment of sciencebeam_alignment itself is trusted, only its use is explored',
    'chunks are only checked if they are in the order of the searched text'
]
STATE = 'result (index ranges) of a search'
TRANSITION = 'a search'

THRESHOLD = 0.8


def letters(start, count):
    """text without repeated characters, and without white space or punctuation"""
    return ''.join(chr(start + i) for i in range(count))


NEEDLES = {n: letters(0x4e00, n) for n in (5, 6, 21, 120, 260, 900)}
X = letters(0x5000, 40)
Y = letters(0x6000, 30)
Z = letters(0x7000, 36)
FILL = '0'


def BOUNDS(tier):
    return {
        'positions': {
            'needle_lengths': sorted(_needle_lengths(tier)), 'text_lengths': _lengths(tier),
            'offsets': 'all'
        },
        'small_texts': 'all texts of up to %d and needles of 5 to %d characters out of {a, b}' % (
            _small(tier)
        ),
        'chunks': {'lengths': _lengths(tier), 'offset_step': _chunk_step(tier)},
        'all_occurrences': {'occurrences': 4, 'gaps': GAPS},
        'words': {'words': _word_count(tier), 'vocabulary': WORDS},
        'differences': 'all positions of 1 or 4 differing characters of 20'
    }


def _needle_lengths(tier):
    return [5, 21, 120, 260] if tier == 'quick' else list(NEEDLES)


def _lengths(tier):
    return [900, 1000, 1001, 2300] if tier == 'quick' else [900, 1000, 1001, 1500, 2300, 4600]


def _small(tier):
    return (9, 6) if tier == 'quick' else (12, 8)


def _chunk_step(tier):
    return 60 if tier == 'quick' else 20


def _word_count(tier):
    return 5 if tier == 'quick' else 6


GAPS = [0, 1, 30, 990, 1500]
WORDS = ['ab', 'abc', 'cd', 'x']
SEPARATORS = [' ', '-', '\n']
BLOCK = 50


def cases(tier):
    for count in range(0, _word_count(tier) + 1):
        for words in itertools.product(range(len(WORDS)), repeat=count):
            yield ['words', list(words)]
    for position in range(0, 20):
        yield ['differences', position]
    small_haystack, small_needle = _small(tier)
    for length in range(5, small_needle + 1):
        for chars in itertools.product('ab', repeat=length):
            yield ['small', ''.join(chars), small_haystack]
    for length in range(0, 5):
        for gaps in itertools.product(range(len(GAPS)), repeat=length):
            yield ['all', list(gaps)]
    for length in _lengths(tier):
        for needle_length in _needle_lengths(tier):
            if needle_length > length:
                continue
            for start in range(0, length - needle_length + 1, BLOCK):
                yield ['position', length, needle_length, start]
    step = _chunk_step(tier)
    for length in _lengths(tier):
        for first in range(0, length - 120, step):
            yield ['chunks', length, first, step]
        for first in range(0, length - 400, 3 * step):
            yield ['three_chunks', length, first, 4 * step]


def run(case, ctx):
    globals()['run_' + case[0]](ctx, *case[1:])


def observe(ctx, actual, expected, what):
    ctx.step()
    ctx.state([what[:40], actual])
    check_equal(actual, expected, what)


def search(haystack, needle, **kwargs):
    result = fuzzy_search_index_range(haystack, needle, threshold=THRESHOLD, **kwargs)
    return tuple(result) if result else None


def search_all(haystack, needle, **kwargs):
    return [
        tuple(r) for r in iter_fuzzy_search_all_index_ranges(
            haystack, needle, threshold=THRESHOLD, **kwargs
        )
    ]


def search_chunks(haystack, needle, max_chunks, **kwargs):
    result = fuzzy_search_index_range_chunks(
        haystack, needle, threshold=THRESHOLD, max_chunks=max_chunks, **kwargs
    )
    return [tuple(r) for r in result] if result else None


def run_position(ctx, length, needle_length, start):
    needle = NEEDLES[needle_length]
    for offset in range(start, min(start + BLOCK, length - needle_length + 1)):
        haystack = FILL * offset + needle + FILL * (length - needle_length - offset)
        what = 'position of %d characters at %d of %d' % (needle_length, offset, length)
        observe(ctx, search(haystack, needle), (offset, offset + needle_length), what)
        if offset % 5 == 0:
            observe(
                ctx, search_chunks(haystack, needle, 2), [(offset, offset + needle_length)],
                what + ' (chunks)'
            )
            # white space within the text is ignored
            spaced = FILL * offset + needle[:3] + ' \n' + needle[3:] + ' ' + FILL * 3
            observe(
                ctx, search(spaced, needle[:2] + ' ' + needle[2:]),
                (offset, offset + needle_length + 2), what + ' (white space)'
            )
        if offset % 10 == 0:
            observe(
                ctx, search(haystack, letters(0x7000, needle_length)), None,
                what + ' (other text)'
            )
            observe(
                ctx, search(haystack[:offset] + needle[:needle_length // 2], needle), None,
                what + ' (first half only)'
            )


def run_small(ctx, needle, max_length):
    for length in range(5, max_length + 1):
        for chars in itertools.product('ab', repeat=length):
            haystack = ''.join(chars)
            start = haystack.find(needle)
            if start < 0:
                continue
            # repeated characters before the match may be part of the alignment
            actual = search(haystack, needle)
            observe(
                ctx, actual and needle in haystack[actual[0]:actual[1]], True,
                '%r in %r, position %r' % (needle, haystack, actual)
            )


def run_all(ctx, gap_indices):
    gaps = [GAPS[i] for i in gap_indices]
    for needle in (NEEDLES[21], 'ab'):
        fill = FILL
        if needle == 'ab':
            fill = '. '
        haystack = ''
        expected = []
        for gap in gaps:
            haystack += fill * max(gap, 1 if needle == 'ab' else 0)
            expected.append((len(haystack), len(haystack) + len(needle)))
            haystack += needle
        haystack += fill * 7
        observe(ctx, search_all(haystack, needle), expected, 'all, gaps %r' % gaps)
        if expected:
            # continued after the first one
            observe(
                ctx, search_all(haystack, needle, start_index=expected[0][1]), expected[1:],
                'all after the first one, gaps %r' % gaps
            )


def run_words(ctx, word_indices):
    """short values have to match whole words"""
    for separator in SEPARATORS:
        words = [WORDS[i] for i in word_indices]
        haystack = separator.join(words)
        for needle in WORDS:
            starts = []
            position = 0
            for word in words:
                if word == needle:
                    starts.append((position, position + len(word)))
                position += len(word) + len(separator)
            what = 'word %r in %r' % (needle, haystack)
            observe(ctx, search(haystack, needle), starts[0] if starts else None, what)
            observe(ctx, search_all(haystack, needle), starts, 'all ' + what)


def run_differences(ctx, position):
    needle = letters(0x4e00, 20)
    for offset in (0, 7, 985, 1300):
        for tail in (0, 9, 1200):
            for count, is_found in ((1, True), (4, False)):
                if not 1 <= position <= 19 - count:
                    continue  # the match is shorter with differences at the start or end
                changed = needle[:position] + FILL * count + needle[position + count:]
                haystack = '1' * offset + changed + '1' * tail
                observe(
                    ctx, search(haystack, needle),
                    (offset, offset + 20) if is_found else None,
                    '%d differences at %d, offset %d of %d' % (
                        count, position, offset, len(haystack))
                )
                if count == 1 and 2 <= position <= 17:
                    removed = needle[:position] + needle[position + 1:]
                    observe(
                        ctx, search('1' * offset + removed + '1' * tail, needle),
                        (offset, offset + 19), 'missing character'
                    )


def run_chunks(ctx, length, first, step):
    for second in range(first + len(X) + 60, length - len(Y) + 1, step):
        haystack = FILL * first + X + FILL * (second - first - len(X)) + Y
        haystack += FILL * (length - len(haystack))
        what = 'chunks at %d and %d of %d' % (first, second, length)
        needle = X + ' ' + Y
        observe(
            ctx, search_chunks(haystack, needle, 2),
            [(first, first + len(X)), (second, second + len(Y))], what
        )
        observe(ctx, search_chunks(haystack, needle, 1), None, what + ' (single chunk)')


def run_three_chunks(ctx, length, first, step):
    for second in range(first + len(X) + 60, length - len(Z) - len(Y) - 60, step):
        for third in range(second + len(Y) + 60, length - len(Z) + 1, step):
            haystack = ''
            for offset, text in ((first, X), (second, Y), (third, Z)):
                haystack = haystack.ljust(offset, FILL) + text
            haystack = haystack.ljust(length, FILL)
            what = 'chunks at %d, %d and %d of %d' % (first, second, third, length)
            needle = ' '.join([X, Y, Z])
            for count in (3, 4):
                observe(
                    ctx, search_chunks(haystack, needle, count),
                    [(first, first + len(X)), (second, second + len(Y)), (third, third + len(Z))],
                    what
                )
            observe(ctx, search_chunks(haystack, needle, 2), None, what + ' (two chunks)')
