"""Writes a C file with client structures and two schemas for each: one made
with the public macros of cyaml.h, one with plain initialisers saying what the
documentation of those macros promises (where a member lies, how wide it is,
whether it is a pointer, where its count is).

  macros_gen.py SEED FAMILIES > out.c
"""
import random
import sys

INTS = ['int8_t', 'int16_t', 'int32_t', 'int64_t', 'int', 'short', 'long', 'signed char', 'long long']
UINTS = ['uint8_t', 'uint16_t', 'uint32_t', 'uint64_t', 'unsigned', 'unsigned short', 'unsigned long', 'unsigned char', 'size_t']
BOOLS = ['bool', 'bool', 'uint8_t', 'int', 'unsigned']
KINDS = ['INT', 'UINT', 'BOOL', 'ENUM', 'FLAGS', 'BITFIELD', 'FLOAT', 'STRING', 'MAPPING', 'SEQUENCE', 'SEQUENCE_FIXED']
UNION = {'INT': 'integer', 'UINT': 'unsigned_integer', 'BOOL': 'boolean', 'ENUM': 'enumeration', 'FLAGS': 'enumeration',
         'BITFIELD': 'bitfield', 'FLOAT': 'floating_point', 'STRING': 'string', 'MAPPING': 'mapping',
         'SEQUENCE': 'sequence', 'SEQUENCE_FIXED': 'sequence'}
WIDTH = {'int8_t': 8, 'int16_t': 16, 'int32_t': 32, 'int64_t': 64, 'int': 32, 'short': 16, 'long': 64, 'signed char': 8, 'long long': 64,
         'uint8_t': 8, 'uint16_t': 16, 'uint32_t': 32, 'uint64_t': 64, 'unsigned': 32, 'unsigned short': 16, 'unsigned long': 64,
         'unsigned char': 8, 'size_t': 64}
WORDS = ['size', 'name', 'alpha', 'Beta', 'x', 'y', 'zoom', 'a key', 'under_score', 'dash-ed', 'dot.ted', 'MIXED', 'long_winded_name_of_a_field',
         'n', 'id', 'colour', 'w', 'h', 'first', 'last', 'flag', 'mode', 'list', 'sub', 'val', 'opt', 'data', 'len', 'key', 'type', 'num']


class G:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.out = []
        self.n = 0
        self.used = set()

    def id(self):
        self.n += 1
        return self.n

    def p(self, s):
        self.out.append(s)

    def words(self, n):
        got, low = [], set()
        while len(got) < n:
            w = self.r.choice(WORDS)
            if self.r.random() < .5 or w.lower() in low:
                w += str(self.r.randrange(100))
            if w.lower() in low:
                continue
            low.add(w.lower())
            got.append(w)
        return got

    def flags(self, kind, ptr, field):
        r, f = self.r, []
        if ptr:
            f.append(r.choice(['CYAML_FLAG_POINTER'] * 3 + ['CYAML_FLAG_POINTER_NULL', 'CYAML_FLAG_POINTER_NULL_STR']))
        if field and r.random() < .35:
            f.append('CYAML_FLAG_OPTIONAL')
        if r.random() < .2:
            f.append('CYAML_FLAG_STRICT')
        if r.random() < .15:
            f.append(r.choice(['CYAML_FLAG_CASE_SENSITIVE', 'CYAML_FLAG_CASE_INSENSITIVE']))
        if r.random() < .2:
            f.append(r.choice(['CYAML_FLAG_BLOCK', 'CYAML_FLAG_FLOW']))
        if r.random() < .2:
            f.append(r.choice(['CYAML_FLAG_SCALAR_PLAIN', 'CYAML_FLAG_SCALAR_QUOTE_SINGLE', 'CYAML_FLAG_SCALAR_QUOTE_DOUBLE']))
        r.shuffle(f)
        return f

    # The C type of a value of this kind, and its details: (kind, ctype, macro
    # arguments, plain initialiser, generic initialiser)
    def scalar(self, kind=None):
        r = self.r
        kind = kind or r.choice(KINDS[:7])
        if kind == 'INT':
            return kind, r.choice(INTS), '', '', ''
        if kind == 'UINT':
            return kind, r.choice(UINTS), '', '', ''
        if kind == 'BOOL':
            return kind, r.choice(BOOLS), '', '', ''
        if kind == 'FLOAT':
            return kind, r.choice(['float', 'double']), '', '', ''
        i = self.id()
        names = self.words(r.randint(1, 6))
        if kind in ('ENUM', 'FLAGS'):
            if r.random() < .5:
                ct = 'enum e%d' % i
                w = 31
                decl = True
            else:
                ct = r.choice(INTS if kind == 'ENUM' else UINTS)
                w = WIDTH[ct] - (1 if kind == 'ENUM' else 0)
                decl = False
            if kind == 'ENUM':
                vals, seen = [], set()
                for k in range(len(names)):
                    v = r.choice([k, r.randrange(1 << min(w, 30)), -r.randrange(1 << min(w, 30)) if r.random() < .5 else k * 3])
                    while v in seen:
                        v = (v + 1) % (1 << min(w, 30))
                    seen.add(v)
                    vals.append(v)
            else:
                names = names[:min(len(names), w)]
                vals = [1 << b for b in r.sample(range(w), len(names))]
            if decl:
                self.p('enum e%d { %s };' % (i, ', '.join('e%d_%d = %d' % (i, k, v) for k, v in enumerate(vals))))
            self.p('static const cyaml_strval_t t%d[] = { %s };' % (i, ', '.join('{ "%s", %dll }' % (n, v) for n, v in zip(names, vals))))
            n = len(names)
            return kind, ct, ', t%d, %s' % (i, r.choice([str(n), 'CYAML_ARRAY_LEN(t%d)' % i])), '.strings = t%d, .count = %d' % (i, n), ''
        ct = r.choice(UINTS)
        w, at, rows = WIDTH[ct], 0, []
        for n in names:
            b = r.randint(1, max(1, min(w - at, 20)))
            if at + b > w:
                break
            rows.append('{ .name = "%s", .offset = %d, .bits = %d }' % (n, at, b))
            at += b + r.choice([0, 0, 1, 3])
        self.p('static const cyaml_bitdef_t t%d[] = { %s };' % (i, ', '.join(rows)))
        n = len(rows)
        return kind, ct, ', t%d, %s' % (i, r.choice([str(n), 'CYAML_ARRAY_LEN(t%d)' % i])), '.bitdefs = t%d, .count = %d' % (i, n), ''

    def value(self, name, kind, flags, size, plain):
        return '{ .type = CYAML_%s, .flags = (enum cyaml_flag)(%s), .data_size = %s, .%s = { %s } }' % (
            kind, ' | '.join(flags) or '0', size, UNION[kind], plain or '0')

    # A schema for the entries of something; returns (C declaration prefix, suffix, number of the schema)
    def entry(self, depth, fixed_ok=True):
        r = self.r
        i_pick = r.random()
        ptr = r.random() < .35
        fl = self.flags('', ptr, False)
        shown = ' | '.join(fl) or 'CYAML_FLAG_DEFAULT'
        if i_pick < .5 or depth <= 0:
            kind, ct, args, plain, _ = self.scalar()
            i = self.id()
            self.p('static const cyaml_schema_value_t m%d = { CYAML_VALUE_%s(%s, %s%s) };' % (i, kind, shown, ct, args))
            self.p('static const cyaml_schema_value_t h%d = %s;' % (i, self.value('', kind, fl, 'sizeof(%s)' % ct, plain)))
            return ct + (' *' if ptr else ''), '', i
        if i_pick < .65:
            i = self.id()
            lo = r.choice([0, 0, 1, 3])
            if ptr:
                hi = r.choice(['CYAML_UNLIMITED', str(lo + r.randint(0, 9))])
                self.p('static const cyaml_schema_value_t m%d = { CYAML_VALUE_STRING(%s, char *, %d, %s) };' % (i, shown, lo, hi))
                self.p('static const cyaml_schema_value_t h%d = %s;' % (i, self.value('', 'STRING', fl, 'sizeof(char)', '.min = %d, .max = %s' % (lo, hi.replace('CYAML_UNLIMITED', 'UINT32_MAX')))))
                return 'char *', '', i
            n = lo + r.randint(1, 12)
            self.p('typedef char s%d[%d];' % (i, n))
            self.p('static const cyaml_schema_value_t m%d = { CYAML_VALUE_STRING(%s, s%d, %d, %d) };' % (i, shown, i, lo, n - 1))
            self.p('static const cyaml_schema_value_t h%d = %s;' % (i, self.value('', 'STRING', fl, str(n), '.min = %d, .max = %d' % (lo, n - 1))))
            return 's%d' % i, '', i
        if i_pick < .85 or not fixed_ok:
            s = self.struct(depth - 1)
            i = self.id()
            self.p('static const cyaml_schema_value_t m%d = { CYAML_VALUE_MAPPING(%s, struct r%d, mf%d) };' % (i, shown, s, s))
            self.p('static const cyaml_schema_value_t h%d = %s;' % (i, self.value('', 'MAPPING', fl, 'sizeof(struct r%d)' % s, '.fields = hf%d' % s)))
            return 'struct r%d' % s + (' *' if ptr else ''), '', i
        ct, _, e = self.entry(depth - 1, False)
        i = self.id()
        n = r.randint(1, 4)
        self.p('typedef %s %sa%d%s;' % (ct, '*' if ptr else '', i, '' if ptr else '[%d]' % n))
        self.p('typedef %s b%d;' % (ct, i))
        self.p('static const cyaml_schema_value_t m%d = { CYAML_VALUE_SEQUENCE_FIXED(%s, b%d, &m%d, %d) };' % (i, shown, i, e, n))
        self.p('static const cyaml_schema_value_t h%d = %s;' % (i, self.value('', 'SEQUENCE_FIXED', fl, 'sizeof(b%d)' % i, '.entry = &h%d, .min = %d, .max = %d' % (e, n, n))))
        return 'a%d' % i, '', i

    def struct(self, depth):
        r = self.r
        n = r.randint(1, 10)
        keys = self.words(n)
        members, mac, hand = [], [], []
        todo = []
        for k in range(n):
            kind = r.choice(KINDS + ['IGNORE'])
            if depth <= 0 and kind == 'MAPPING':
                kind = 'INT'
            todo.append((keys[k], 'v%d' % k, kind))
        sid = self.id()
        for key, mem, kind in todo:
            ptr = r.random() < .45
            fl = self.flags(kind, ptr, True)
            generic = r.random() < .25
            S = 'struct r%d' % sid
            if kind == 'IGNORE':
                fl = [f for f in fl if 'POINTER' not in f]
                mac.append('CYAML_FIELD_IGNORE("%s", %s)' % (key, ' | '.join(fl) or 'CYAML_FLAG_DEFAULT'))
                hand.append('{ .key = "%s", .value = { .type = CYAML_IGNORE, .flags = (enum cyaml_flag)(%s) } }' % (key, ' | '.join(fl) or '0'))
                continue
            extra, cnt, cntmem = '', None, None
            # the macros for pointers set the flag, and the others take it away
            given = list(fl)
            if kind not in ('SEQUENCE', 'SEQUENCE_FIXED'):
                if ptr and 'CYAML_FLAG_POINTER' in given and r.random() < .5:
                    given.remove('CYAML_FLAG_POINTER')
                if not ptr and r.random() < .2:
                    given.append('CYAML_FLAG_POINTER')
            shown = ' | '.join(given) or r.choice(['CYAML_FLAG_DEFAULT', '0'])
            tail = '_PTR' if ptr else ''
            at = 'offsetof(%s, %s)' % (S, mem)
            if kind in ('INT', 'UINT', 'BOOL', 'ENUM', 'FLAGS', 'BITFIELD', 'FLOAT'):
                _, ct, args, plain, _ = self.scalar(kind)
                members.append('%s %s%s;' % (ct, '*' if ptr else '', mem))
                init = plain
                if generic:
                    if kind in ('INT', 'UINT') and r.random() < .7:
                        lo = r.randrange(50) - (25 if kind == 'INT' else 0)
                        init = '.min = %d, .max = %d' % (lo, lo + r.randrange(70))
                        if 'CYAML_FLAG_OPTIONAL' in fl and r.random() < .6:
                            init += ', .missing = %d' % (lo + 1)
                    elif 'CYAML_FLAG_OPTIONAL' in fl and kind in ('BOOL', 'FLOAT'):
                        init = '.missing = 1'
                    elif 'CYAML_FLAG_OPTIONAL' in fl and kind in ('ENUM', 'FLAGS', 'BITFIELD'):
                        init = plain + ', .missing = 1'
                    m = 'CYAML_FIELD%s(%s, "%s", %s, %s, %s, { %s })' % (tail, kind, key, shown, S, mem, init or '0')
                else:
                    m = 'CYAML_FIELD_%s%s("%s", %s, %s, %s%s)' % (kind, tail, key, shown, S, mem, args)
                size = 'sizeof(%s)' % ct
                plain = init
            elif kind == 'STRING':
                lo = r.choice([0, 0, 0, 2])
                if ptr:
                    members.append('char *%s;' % mem)
                    hi = r.choice(['CYAML_UNLIMITED', str(lo + r.randint(0, 30))])
                    plain, size = '.min = %d, .max = %s' % (lo, hi.replace('CYAML_UNLIMITED', 'UINT32_MAX')), 'sizeof(char)'
                    m = 'CYAML_FIELD_STRING_PTR("%s", %s, %s, %s, %d, %s)' % (key, shown, S, mem, lo, hi)
                else:
                    n = lo + r.choice([1, 2, 3, 8, 20, 100])
                    members.append('char %s[%d];' % (mem, n))
                    plain, size = '.min = %d, .max = %d' % (lo, n - 1), str(n)
                    m = 'CYAML_FIELD_STRING("%s", %s, %s, %s, %d)' % (key, shown, S, mem, lo)
                if generic:
                    if 'CYAML_FLAG_OPTIONAL' in fl and r.random() < .6 and not (lo > 1) and 'max = 0' not in plain:
                        plain += ', .missing = "d"'
                    m = 'CYAML_FIELD%s(STRING, "%s", %s, %s, %s, { %s })' % (tail, key, shown, S, mem, plain)
            elif kind == 'MAPPING':
                s = self.struct(depth - 1)
                members.append('struct r%d %s%s;' % (s, '*' if ptr else '', mem))
                plain, size = '.fields = hf%d' % s, 'sizeof(struct r%d)' % s
                m = 'CYAML_FIELD_MAPPING%s("%s", %s, %s, %s, mf%d)' % (tail, key, shown, S, mem, s)
                if generic:
                    m = 'CYAML_FIELD%s(MAPPING, "%s", %s, %s, %s, { .fields = mf%d })' % (tail, key, shown, S, mem, s)
            elif kind == 'SEQUENCE':
                ct, _, e = self.entry(depth, True)
                lo = r.choice([0, 0, 0, 1, 2])
                ctype = r.choice(['unsigned', 'uint8_t', 'uint16_t', 'uint64_t', 'size_t', 'uint32_t'])
                named = r.random() < .5
                cntmem = mem + '_count' if not named else r.choice(['n_' + mem, 'count_of_' + mem])
                hi = r.choice(['CYAML_UNLIMITED', str(lo + r.randint(1, 6))]) if ptr else str(lo + r.randint(1, 4))
                array = mem if ptr else '%s[%s]' % (mem, hi)
                two = ['%s %s%s;' % (ct, '*' if ptr else '', array), '%s %s;' % (ctype, cntmem)]
                members.append(two)
                size = 'sizeof(%s)' % ct
                plain = '.entry = &h%d, .min = %d, .max = %s' % (e, lo, hi.replace('CYAML_UNLIMITED', 'UINT32_MAX'))
                margs = '&m%d, %d, %s' % (e, lo, hi)
                minit = '{ .entry = &m%d, .min = %d, .max = %s }' % (e, lo, hi)
                if named and generic:
                    m = 'CYAML_FIELD_PTR_COUNT(SEQUENCE, "%s", %s, %s, %s, %s, %s)' % (key, shown, S, mem, cntmem, minit)
                elif named:
                    m = 'CYAML_FIELD_SEQUENCE_COUNT("%s", %s, %s, %s, %s, %s)' % (key, shown, S, mem, cntmem, margs)
                elif generic:
                    m = 'CYAML_FIELD_PTR(SEQUENCE, "%s", %s, %s, %s, %s)' % (key, shown, S, mem, minit)
                else:
                    m = 'CYAML_FIELD_SEQUENCE("%s", %s, %s, %s, %s)' % (key, shown, S, mem, margs)
                cnt = (cntmem, ctype)
            else:
                ct, _, e = self.entry(depth, True)
                n = r.randint(1, 5)
                members.append('%s %s%s;' % (ct, '*' if ptr else '', mem if ptr else '%s[%d]' % (mem, n)))
                size = 'sizeof(%s)' % ct
                plain = '.entry = &h%d, .min = %d, .max = %d' % (e, n, n)
                m = 'CYAML_FIELD_SEQUENCE_FIXED("%s", %s, %s, %s, &m%d, %d)' % (key, shown, S, mem, e, n)
                if generic:
                    m = 'CYAML_FIELD_PTR(SEQUENCE_FIXED, "%s", %s, %s, %s, { .entry = &m%d, .min = %d, .max = %d })' % (key, shown, S, mem, e, n, n)
            mac.append(m)
            h = '{ .key = "%s", .data_offset = %s, ' % (key, at)
            if cnt:
                h += '.count_offset = offsetof(%s, %s), .count_size = sizeof(%s), ' % (S, cnt[0], cnt[1])
            h += '.value = %s }' % self.value('', kind, fl, size, plain)
            hand.append(h)
        flat = []
        for m in members:
            flat += m if isinstance(m, list) else [m]
        for k in range(r.randint(0, 3)):
            flat.append('%s pad%d;' % (r.choice(['char', 'int', 'double', 'void *']), k))
        if not flat:
            flat.append('char none;')
        r.shuffle(flat)
        self.p('struct r%d {\n\t%s\n};' % (sid, '\n\t'.join(flat)))
        self.p('static const cyaml_schema_field_t mf%d[] = {\n\t%s\n};' % (sid, ',\n\t'.join(mac + ['CYAML_FIELD_END'])))
        self.p('static const cyaml_schema_field_t hf%d[] = {\n\t%s\n};' % (sid, ',\n\t'.join(hand + ['{ .key = 0 }'])))
        return sid

    def family(self):
        r = self.r
        x = r.random()
        null = r.choice(['CYAML_FLAG_POINTER'] * 8 + ['CYAML_FLAG_DEFAULT'] + ['CYAML_FLAG_POINTER_NULL', 'CYAML_FLAG_POINTER_NULL_STR'] * 2)
        if x < .7:
            s = self.struct(3)
            i = self.id()
            self.p('static const cyaml_schema_value_t m%d = { CYAML_VALUE_MAPPING(%s, struct r%d, mf%d) };' % (i, null, s, s))
            self.p('static const cyaml_schema_value_t h%d = %s;' % (i, self.value('', 'MAPPING', [null], 'sizeof(struct r%d)' % s, '.fields = hf%d' % s)))
        elif x < .85:
            ct, _, e = self.entry(2)
            i = self.id()
            lo = r.choice([0, 0, 1])
            hi = r.choice(['CYAML_UNLIMITED', str(lo + r.randint(1, 6))])
            self.p('typedef %s b%d;' % (ct, i))
            self.p('static const cyaml_schema_value_t m%d = { CYAML_VALUE_SEQUENCE(%s, b%d, &m%d, %d, %s) };' % (i, null, i, e, lo, hi))
            self.p('static const cyaml_schema_value_t h%d = %s;' % (i, self.value('', 'SEQUENCE', [null], 'sizeof(b%d)' % i, '.entry = &h%d, .min = %d, .max = %s' % (e, lo, hi.replace('CYAML_UNLIMITED', 'UINT32_MAX')))))
        elif x < .93:
            ct, _, e = self.entry(2)
            i = self.id()
            n = r.randint(1, 5)
            self.p('typedef %s b%d;' % (ct, i))
            self.p('static const cyaml_schema_value_t m%d = { CYAML_VALUE_SEQUENCE_FIXED(%s, b%d, &m%d, %d) };' % (i, null, i, e, n))
            self.p('static const cyaml_schema_value_t h%d = %s;' % (i, self.value('', 'SEQUENCE_FIXED', [null], 'sizeof(b%d)' % i, '.entry = &h%d, .min = %d, .max = %d' % (e, n, n))))
        else:
            kind, ct, args, plain, _ = self.scalar()
            i = self.id()
            self.p('static const cyaml_schema_value_t m%d = { CYAML_VALUE_%s(%s, %s%s) };' % (i, kind, null, ct, args))
            self.p('static const cyaml_schema_value_t h%d = %s;' % (i, self.value('', kind, [null], 'sizeof(%s)' % ct, plain)))
        return i


def generate(seed, families):
    g = G(seed)
    g.p('/* written by macros_gen.py, seed %d */' % seed)
    g.p('#include <stddef.h>\n#include <stdint.h>\n#include <stdbool.h>\n#include <cyaml/cyaml.h>')
    ids = [g.family() for _ in range(families)]
    g.p('const cyaml_schema_value_t *const macro_schemas[] = { %s };' % ', '.join('&m%d' % i for i in ids))
    g.p('const cyaml_schema_value_t *const plain_schemas[] = { %s };' % ', '.join('&h%d' % i for i in ids))
    g.p('const unsigned n_macro_schemas = %d;' % len(ids))
    return '\n'.join(g.out) + '\n'


if __name__ == '__main__':
    sys.stdout.write(generate(int(sys.argv[1]), int(sys.argv[2])))
