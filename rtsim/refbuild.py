"""Builds the reference program: the original text, edited as the mutation information file says each mutant edits it.

Every mutation site becomes a statement expression that evaluates each operand's text at most once and applies the selected
alternative; ref_on(id) and sim_cov(group) are provided by the simulator. No code produced by dredd is used.
"""
import json
import re

OPS = {'Add': '+', 'Sub': '-', 'Mul': '*', 'Div': '/', 'Rem': '%', 'And': '&', 'Or': '|', 'Xor': '^', 'Shl': '<<', 'Shr': '>>',
       'LT': '<', 'GT': '>', 'LE': '<=', 'GE': '>=', 'EQ': '==', 'NE': '!=', 'LAnd': '&&', 'LOr': '||'}
ASSIGN = {'Assign': '=', 'AddAssign': '+=', 'SubAssign': '-=', 'MulAssign': '*=', 'DivAssign': '/=', 'RemAssign': '%=', 'AndAssign': '&=',
          'OrAssign': '|=', 'XorAssign': '^=', 'ShlAssign': '<<=', 'ShrAssign': '>>='}
CONST = {'ReplaceWithZeroInt': '0', 'ReplaceWithOneInt': '1', 'ReplaceWithMinusOneInt': '-1', 'ReplaceWithZeroFloat': '0.0', 'ReplaceWithOneFloat': '1.0',
         'ReplaceWithMinusOneFloat': '-1.0', 'ReplaceWithTrue': '1', 'ReplaceWithFalse': '0'}


class Unsupported(Exception):
    pass


GAP = re.compile(rb'\s|\\\n|/\*.*?\*/|//[^\n]*\n', re.S)


class Group:
    pass


def load_groups(info_file_entry, text):
    """The mutation groups of one file, with byte offsets into text (bytes)."""
    starts = [0]
    for i, b in enumerate(text):
        if b == 10:
            starts.append(i + 1)

    def off(p):
        return starts[p['line'] - 1] + p['column'] - 1

    groups = []
    for node in info_file_entry.get('mutationTree', []):
        for g in node.get('mutationGroups', []):
            (k, v), = g.items()
            o = Group()
            o.kind = k
            o.v = v
            if k == 'removeStmt':
                o.start, o.end = off(v['start']), off(v['end'])
                o.inst = [(v.get('mutationId', 0), 'RemoveStmt')]
            elif k == 'replaceExpr':
                o.start, o.end = off(v['start']), off(v['end'])
                o.inst = [(i.get('mutationId', 0), i['action']) for i in v.get('instances', [])]
            elif k == 'replaceUnaryOperator':
                o.start, o.end = off(v['exprStart']), off(v['exprEnd'])
                o.os, o.oe = off(v['operandStart']), off(v['operandEnd'])
                o.inst = [(i.get('mutationId', 0), i['action']) for i in v.get('instances', [])]
            elif k == 'replaceBinaryOperator':
                o.start, o.end = off(v['exprStart']), off(v['exprEnd'])
                o.ls, o.le, o.rs, o.re = off(v['lhsStart']), off(v['lhsEnd']), off(v['rhsStart']), off(v['rhsEnd'])
                o.inst = [(i.get('mutationId', 0), i['action']) for i in v.get('instances', [])]
            else:
                raise Unsupported(k)
            if o.inst:
                groups.append(o)
    return groups


def rank(g):
    if g.kind == 'removeStmt':
        return 0
    if g.kind == 'replaceExpr':
        return 2 if any(a in ('InsertPreInc', 'InsertPreDec') for _, a in g.inst) else 1
    return 3


class Ref:
    def __init__(self, text, groups, lang, base):
        self.t = text
        self.lang = lang
        self.n = 0
        self.groups = sorted(groups, key=lambda g: (g.start, -g.end, rank(g)))
        for i, g in enumerate(self.groups):
            g.gid = base + i

    def build(self):
        pre = b'#include "ref.h"\n'
        return pre + self.render(0, len(self.t), self.groups)

    def render(self, s, e, gs):
        """The text [s,e) with the groups gs (all within it, outermost first) applied."""
        out = []
        pos = s
        i = 0
        while i < len(gs):
            g = gs[i]
            assert s <= g.start and g.end <= e, (s, e, g.start, g.end)
            inner = []
            j = i + 1
            while j < len(gs) and gs[j].start < g.end:
                if gs[j].end > g.end:
                    raise Unsupported('overlapping ranges')
                inner.append(gs[j])
                j += 1
            out.append(self.t[pos:g.start])
            txt, end = self.apply(g, inner, e)
            out.append(txt)
            pos = end
            i = j
        out.append(self.t[pos:e])
        return b''.join(out)

    def ty(self, s, e, boolean=False):
        if boolean:
            return 'bool'
        return 'REF_T(%s)' % self.t[s:e].decode('utf-8', 'replace')

    def part(self, s, e, inner):
        return self.render(s, e, [g for g in inner if s <= g.start and g.end <= e])

    def apply(self, g, inner, limit):
        n = self.n
        self.n += 1
        cc = self.lang == 'cc'
        D = lambda x: x.decode('utf-8', 'surrogateescape')
        v, p, l, r = 'rv%d' % n, 'rp%d' % n, 'rl%d' % n, 'rr%d' % n
        cov = 'sim_cov(%d); ' % g.gid
        cove = 'sim_cove(%d); ' % g.gid
        if g.kind == 'removeStmt':
            body = D(self.part(g.start, g.end, inner))
            end = g.end
            k = end
            while k < limit:
                m = GAP.match(self.t, k)
                if not m:
                    break
                k = m.end()
            if self.t[k:k + 1] == b';':
                end = k + 1
                body += ';'
            return ('{ %s%sif (!ref_on(%d)) { %s\n } }' % (cov, cove, g.inst[0][0], body)).encode('utf-8', 'surrogateescape'), end
        if g.kind == 'replaceExpr':
            E = D(self.part(g.start, g.end, inner))
            acts = [a for _, a in g.inst]
            if any(a in ('InsertPreInc', 'InsertPreDec') for a in acts):
                T = self.ty(g.start, g.end)
                s = '(*({ %s %s *%s = &(%s); %s' % (cov, T, p, E, cove)
                for id_, a in g.inst:
                    s += 'if (ref_on(%d)) %s*%s; else ' % (id_, {'InsertPreInc': '++', 'InsertPreDec': '--'}[a], p)
                s += '; %s; }))' % p
            else:
                boolean = cc and all(a in ('InsertLNot', 'ReplaceWithTrue', 'ReplaceWithFalse') for a in acts)
                T = self.ty(g.start, g.end, boolean)
                if cc:
                    s = '({ %s %s %s = 0; ' % (cov, T, v)
                    for id_, a in g.inst:
                        if a in CONST:
                            s += 'if (ref_on(%d)) %s = (%s)%s; else ' % (id_, v, T, CONST[a])
                    s += '{ %s = (%s)(%s); ' % (v, T, E)
                    for id_, a in g.inst:
                        if a not in CONST:
                            s += 'if (ref_on(%d)) %s = (%s)(%s%s); else ' % (id_, v, T, {'InsertLNot': '!', 'InsertNot': '~', 'InsertMinus': '-'}[a], v)
                    s += '; } %s %s; })' % (cove, v)
                else:
                    s = '({ %s %s %s = (%s)(%s); %s' % (cov, T, v, T, E, cove)
                    for id_, a in g.inst:
                        if a in CONST:
                            s += 'if (ref_on(%d)) %s = (%s)%s; else ' % (id_, v, T, CONST[a])
                        else:
                            s += 'if (ref_on(%d)) %s = (%s)(%s%s); else ' % (id_, v, T, {'InsertLNot': '!', 'InsertNot': '~', 'InsertMinus': '-'}[a], v)
                    s += '; %s; })' % v
            return s.encode('utf-8', 'surrogateescape'), g.end
        if g.kind == 'replaceUnaryOperator':
            O = D(self.part(g.os, g.oe, inner))
            op = g.v['operator']
            T = self.ty(g.start, g.end)
            names = {'Minus': '-%s', 'Plus': '+%s', 'Not': '~%s', 'LNot': '!%s', 'PreInc': '++%s', 'PreDec': '--%s', 'PostInc': '%s++', 'PostDec': '%s--', 'Operand': '%s'}
            alts = [(i, a.replace('ReplaceWith', '')) for i, a in g.inst]
            lv = any(x in ('PreInc', 'PreDec', 'PostInc', 'PostDec') for x in [op] + [a for _, a in alts])
            if lv:
                OT = self.ty(g.os, g.oe)
                s = '({ %s %s *%s = &(%s); %s %s %s; ' % (cov, OT, p, O, cove, T, v)
                x = '(*%s)' % p
            else:
                OT = self.ty(g.os, g.oe, cc and op == 'LNot')
                s = '({ %s %s %s = (%s)(%s); %s %s %s; ' % (cov, OT, p, OT, O, cove, T, v)
                x = p
            if cc and lv and all(a in ('PreInc', 'PreDec', 'Operand') for a in [op] + [a for _, a in alts]):
                s = '(*({ %s %s *%s = &(%s); %s ' % (cov, OT, p, O, cove)
                for i, a in alts:
                    s += 'if (ref_on(%d)) (void)(%s); else ' % (i, names[a] % x)
                s += '(void)(%s); %s; }))' % (names[op] % x, p)
                return s.encode('utf-8', 'surrogateescape'), g.end
            for i, a in alts:
                s += 'if (ref_on(%d)) %s = (%s)(%s); else ' % (i, v, T, names[a] % x)
            s += '%s = (%s)(%s); %s; })' % (v, T, names[op] % x, v)
            return s.encode('utf-8', 'surrogateescape'), g.end
        L = D(self.part(g.ls, g.le, inner))
        Rr = D(self.part(g.rs, g.re, inner))
        op = g.v['operator']
        T = self.ty(g.start, g.end)
        alts = [(i, a.replace('ReplaceWith', '')) for i, a in g.inst]
        if op in ASSIGN:
            s = '({ %s %s *%s = &(%s); %s %s = (%s)(%s); %s' % (cov, self.ty(g.ls, g.le), p, L, self.ty(g.rs, g.re), r, self.ty(g.rs, g.re), Rr, cove)
            for i, a in alts:
                s += 'if (ref_on(%d)) *%s %s %s; else ' % (i, p, ASSIGN[a], r)
            s += '*%s %s %s; ' % (p, ASSIGN[op], r)
            s = '(*' + s + '%s; }))' % p if cc else s + '*%s; })' % p
        elif op in ('LAnd', 'LOr'):
            B = 'bool' if cc else 'int'
            o = 'ro%d' % n
            code = {'LAnd': 1, 'LOr': 2, 'LHS': 3, 'RHS': 4, 'EQ': 5, 'NE': 6}
            s = '({ %s int %s = %d; ' % (cov, o, code[op])
            for i, a in alts:
                s += 'if (ref_on(%d)) %s = %d; else ' % (i, o, code[a])
            s += '; %s %s = 0, %s = 0; ' % (B, l, r)
            cvt = '' if cc else '!!'
            if cc:
                s += 'if (%s != 4) %s = %s(%s); ' % (o, l, cvt, L)
                s += 'if (%s == 1 ? %s : %s == 2 ? !%s : %s != 3) %s = %s(%s); ' % (o, l, o, l, o, r, cvt, Rr)
            else:
                s += '%s = %s(%s); ' % (l, cvt, L)
                s += 'if (%s == 1 || (%s == 3 && %d) ? %s : %s == 2 || %s == 3 ? !%s : 1) %s = %s(%s); ' % (o, o, op == 'LAnd', l, o, o, l, r, cvt, Rr)
            s += '%s (%s)(%s == 1 ? %s && %s : %s == 2 ? %s || %s : %s == 3 ? %s : %s == 4 ? %s : %s == 5 ? %s == %s : %s != %s); })' % (
                cove, B, o, l, r, o, l, r, o, l, o, r, o, l, r, l, r)
        else:
            LT, RT = self.ty(g.ls, g.le), self.ty(g.rs, g.re)
            skipL = [i for i, a in alts if a == 'RHS'] if cc else []
            skipR = [i for i, a in alts if a == 'LHS'] if cc else []
            s = '({ %s %s %s = 0; %s %s = 0; %s %s; ' % (cov, LT, l, RT, r, T, v)
            s += ''.join('if (!ref_on(%d)) ' % i for i in skipL) + '%s = (%s)(%s); ' % (l, LT, L)
            s += ''.join('if (!ref_on(%d)) ' % i for i in skipR) + '%s = (%s)(%s); ' % (r, RT, Rr)
            s += cove
            for i, a in alts:
                e = l if a == 'LHS' else r if a == 'RHS' else '%s %s %s' % (l, OPS[a], r)
                s += 'if (ref_on(%d)) %s = (%s)(%s); else ' % (i, v, T, e)
            s += '%s = (%s)(%s %s %s); %s; })' % (v, T, l, OPS[op], r, v)
        return s.encode('utf-8', 'surrogateescape'), g.end


REF_H = '''#ifndef REF_H
#define REF_H
#ifdef __cplusplus
#include <type_traits>
extern "C" int ref_on(int id);
extern "C" void sim_cov(int g);
extern "C" void sim_cove(int g);
#define REF_T(...) std::remove_cv_t<std::remove_reference_t<decltype(__VA_ARGS__)>>
#else
int ref_on(int id);
void sim_cov(int g);
void sim_cove(int g);
#define REF_T(...) __typeof__(((void)0, (__VA_ARGS__)))
#endif
#endif
'''


def build_reference(files, mutate, langs, info):
    """files: name -> original text; info: parsed mutation info whose filenames end in /name. Returns (ref files, groups)."""
    out, allg = {}, []
    for i, name in enumerate(mutate):
        ent = [f for f in info.get('infoForFiles', []) if f['filename'].endswith('/' + name)]
        text = files[name].encode()
        if not ent:
            out[name] = b'#include "ref.h"\n' + text
            continue
        gs = load_groups(ent[0], text)
        r = Ref(text, gs, langs[i], len(allg))
        out[name] = r.build()
        for g in gs:
            g.file = i
            g.text = text[g.start:g.end].decode('utf-8', 'replace')
        allg += gs
    out['ref.h'] = REF_H.encode()
    return out, allg
