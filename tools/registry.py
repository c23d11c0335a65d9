"""Which function decides which property, how its cases are made, and what
the verdict takes for granted."""
import lib_checks as L
import lib_checks2 as L2
import train_checks as T
import py_check as Y
import mc as M

MC = 'model_checking'

COMMON = ['the driver reports the arguments and replies of the real calls unchanged',
          'TLC evaluates the specification correctly',
          'inputs outside the generated families and sizes are not covered']
EXACT = ['scores are chosen as multiples of a power of two (or as logarithms of integers), so that sums are exact '
         'and the specification can use integers']
CLI = ['the command is the real src/cli.rs, built unmodified, run as a process']

TEXT = {
    'P01': ('each session builds a tokenizer from a seeded vocabulary (partial characters, duplicates, all-bytes), special '
            'tokens and steps, and encodes and decodes texts of its alphabet; every reply is judged by TLC, so every line '
            'with a reply counts', EXACT),
    'P02': ('as P01 with dropout 0; the specification computes the best total score by its own recursion and compares '
            'spelling, score, shadowing of duplicates and failure; texts of one character and of tens of kilobytes', EXACT),
    'P03': ('the same text encoded repeatedly at a rate, outcomes collected; each must be best for some allowed set of '
            'withheld occurrences; the observed frequencies must lie within seven standard deviations of the rate', EXACT),
    'P04': ('texts woven from overlapping, nested, empty and non-ASCII special tokens; the specification divides the text '
            'and compares each stretch with what encoding it alone returned', EXACT),
    'P05': ('histories of constructor, additions, copies and reloads, after each of which every lookup is asked for every '
            'id and for known, unknown and duplicated tokens', []),
    'P06': ('tokenizers with arbitrary bytes, characters needing escapes and finite scores of every magnitude, written and '
            'read back through text and file, over earlier files, twice; compared exactly by their bits',
            ['scores that serde_json (without float_roundtrip) does not read back exactly are left out of the random '
             'draws; three such scores are probed as a known finding']),
    'P07': ('definitions generated as abstract documents, changed at one or two points, rendered in many layouts, read; '
            'every truncation point of written files; saves cut short by the operating system', []),
    'P08': ('batches of 0 to thousands of elements of uneven cost under 1 to 16 threads against the single calls, with '
            'failing elements at every position, and threads sharing one tokenizer', []),
    'P09': ('texts of marks, decomposable characters, Hangul and line ends through each step, steps composed in a '
            'tokenizer, canonically equivalent pairs; the specification runs the algorithm of UAX 15',
            ['characters assigned up to Unicode 15.0']),
    'P10': ('random id sequences, mixing base, special and out-of-range ids and pieces of characters; the specification '
            'decodes UTF-8 itself', []),
    'P11': ('vocabularies of overlapping, duplicated, binary and very long tokens, searched before and after additions', []),
    'P12': ('sentences with many and with few segmentations, unreachable positions, one lattice reused in every order; the '
            'specification counts how many segmentations reach each score', EXACT),
    'P13': ('token weights are integers, so normaliser and expected counts are rationals the specification computes '
            'exactly', ['floating-point results are compared to the nearest integer numerator, within 1e-4']),
    'P14': ('tokenizer files with ties, duplicates, infinite margins and every option through the real command', CLI),
    'P15': ('the specification replays the rounds along the appended tokens; where a sample has several equally good '
            'segmentations, each pair counts between its least and greatest number over them, and a token is rejected only '
            'when no choice explains it; samples with more than a few dozen are counted as undecided', CLI + EXACT),
    'P16': ('the specification replays the rounds by the loss of each token to its runner-up segmentation; histories in '
            'which the choice between equally good segmentations changes how often some token is used, or a margin below '
            'rounding decides, are counted as undecided', CLI + EXACT),
    'P17': ('scores are logarithms of integers; the expected counts are recovered from the output scores by inverting '
            'digamma and compared with the exact posterior counts of the specification', CLI +
            ['expected counts are recovered to three decimals; tokens within rounding of 0.5 are undecided']),
    'P18': ('corpora, allow and split patterns, added and suggested lists; the specification enumerates the candidates '
            'itself and compares membership, marks, sizes and order of admission', CLI),
    'P19': ('as P18 with every candidate inserted; the ratio of each token to the single bytes is recovered from the '
            'scores as an exact fraction', CLI),
    'P20': ('corpora of near-matches for random pattern lists; counts in which neighbouring keys differ by one; the '
            'specification has its own leftmost-first matcher', CLI),
    'P21': ('pattern lists composed by the real command and used by the real regular-expression engine on texts that '
            'match, almost match, and do not; every named pattern', CLI +
            ['custom patterns are rendered from their syntax tree by the harness']),
    'P22': ('NUL-separated files with empty samples, proportions, several files and steps through all four commands, whose '
            'outputs the specification predicts from the raw bytes', CLI),
    'P23': ('random command sequences of up to five stages, each stage judged against the one before, and what the last '
            'one left used to encode and decode', CLI),
    'P24': ('each history is run once through the Python module and once through the Rust library; every reply of both is '
            'compared and the Rust side is judged by the specification', ['the module is the real binding, built unmodified']),
    'P25': ('each command under 1 to 32 threads on corpora whose counts are one apart, judged against the '
            'specification, which knows no threads', CLI),
    'P26': ('random corpora at rates of 0, 1/4, 1/2, 3/4 and 1 through generate and prune; how often each candidate was counted is '
            'recovered from the scores, and the totals must lie within seven standard deviations of the stated chance; crowds of '
            'different candidates in one sample show that draws are independent', CLI +
            ['independence between draws is judged by the spread of totals and by how often neighbouring and repeated candidates are counted together']),
    'P27': ('every command with every single thing that can be wrong with one of its inputs (thorough: with two), over a '
            'missing, an older, longer, an unwritable and a too small output, and over its own input: how it ended and what '
            'then stood there', CLI + ['the system refuses writes as RLIMIT_FSIZE makes it refuse them']),
}

# The bounded models whose behaviours each check replays (mc.py).
MODELS = {'P01': ['spell'], 'P02': ['best'], 'P03': ['drop', 'viterbi'], 'P04': ['special'], 'P05': ['lib'], 'P06': ['kept'],
          'P07': ['formats'], 'P08': ['batch'], 'P09': ['unicode'], 'P10': ['decode'], 'P11': ['prefix'], 'P12': ['nbest'],
          'P13': ['post'], 'P14': ['filter'], 'P15': ['merge'], 'P16': ['prune'], 'P17': ['estimate'], 'P18': ['generate'], 'P19': ['generate'],
          'P20': ['mine'], 'P21': ['accept'], 'P22': ['samples'], 'P24': ['py'], 'P25': ['fold']}


def both(name, check):
    """What the models say, then what recorded histories show."""
    def f(res):
        for k in MODELS.get(name, []):
            getattr(M, k)(res)
        check(res)
    return f


CHECKS = {}
for _m in (L, L2, T, Y):
    for _k in dir(_m):
        if len(_k) == 3 and _k[0] == 'p' and _k[1:].isdigit():
            _t = TEXT[_k.upper()]
            CHECKS[_k.upper()] = (both(_k.upper(), getattr(_m, _k)), MC, _t[0], COMMON + _t[1])
