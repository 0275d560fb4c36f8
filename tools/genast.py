"""Writes harness/mzast.h: the components of every class of the syntax tree, from harness/mzdump.h
(accessors) and the constructors of the original headers.  Run by hand; its output is committed."""
import os
import re
import sys

R = '/repo/include/mizugaki/ast/'
src = open('/verif/harness/mzdump.h').read()
bodies = re.findall(r'void (body|put)\(ast::([\w:]+) const& e\) \{ open\("([\w.]+)"\);(.*?) close\(e', src)
out = ['// Generated by tools/genast.py: components of every class, and how to make an object of it.', '#pragma once', '#include "mzdump.h"', 'namespace mzast {', 'namespace ast = mizugaki::ast;', 'template<class T> struct of;']


def ctor(cls, ns):
    for f in ([cls, 'special'] if ns == 'literal' else [cls]):
        try:
            s = open(R + ns + '/' + f + '.h').read()
        except OSError:
            continue
        s = re.sub(r'/\*.*?\*/', '', s, flags=re.S)
        s = re.sub(r'//[^\n]*', '', s)
        m = re.search(r'\b%s\(([^;()]*?)\)\s*(noexcept)?\s*(;|:)' % f, s)
        return [re.sub(r'\s+', ' ', p.strip()) for p in re.split(r',(?![^<]*>)', m.group(1))]


for kind, q, name, props in bodies:
    ns, cls = q.split('::')
    fs = re.findall(r'prop\("(\w+)", e\.(\w+)\(\)\)', props)
    args = []
    for p in ctor(cls, ns):
        t = re.sub(r' \w+( = .*)?$', '', p)
        if t == 'region_type':
            args.append('mizugaki::ast::node_region {}')
        if t in ('', 'region_type'):
            continue
        t = re.sub(r'(?<![\w:])(\w+)(?=>)', lambda m: 'mizugaki::ast::%s::%s' % (ns, m.group(1)) if os.path.exists(R + ns + '/' + m.group(1) + '.h') else m.group(1), t)
        t = re.sub(r'(?<![\w:])(\w+_type|when_clause|concatenations_type)\b', lambda m: 'mizugaki::ast::%s::%s::%s' % (ns, cls, m.group(1)), t)
        args.append(t + ' {}')
    first = {'type::binary_numeric': 'type::kind::binary_integer', 'type::bit_string': 'type::kind::bit', 'type::character_string': 'type::kind::character', 'type::datetime': 'type::kind::time', 'type::decimal': 'type::kind::decimal', 'type::octet_string': 'type::kind::octet', 'type::simple': 'type::kind::boolean',
             'literal::datetime': 'literal::kind::date', 'literal::numeric': 'literal::kind::exact_numeric', 'literal::string': 'literal::kind::character_string', 'statement::expression_constraint': 'statement::constraint_kind::check',
             'statement::key_constraint': 'statement::constraint_kind::unique', 'statement::simple_constraint': 'statement::constraint_kind::null', 'statement::drop_statement': 'statement::kind::drop_table_statement'}.get(q)
    if first:
        args = [re.sub(r'.*(?<!generation)(?<!option)kind_type \{\}', 'mizugaki::ast::' + first, a) for a in args]
    out.append('template<> struct of<ast::%s> {' % q)
    out.append('    static constexpr char const* name = "%s";' % name)
    out.append('    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; %s }' % ' '.join('f("%s", e.%s());' % x for x in fs))
    out.append('    static auto make() {')
    out.append('        using namespace mizugaki::ast; using namespace mizugaki::ast::%s;' % ns)
    if kind == 'body':
        out.append('        return std::make_unique<mizugaki::ast::%s>(%s);' % (q, ', '.join(args)))
    else:
        out.append('        return mizugaki::ast::%s(%s);' % (q, ', '.join(args)))
    out.append('    }')
    out.append('};')
out.append('template<class F> void elements(F&& f) {')
for kind, q, name, props in bodies:
    if kind == 'put':
        out.append('    f(static_cast<ast::%s*>(nullptr));' % q)
out.append('}')
out.append('template<class E> struct constants;')
for l in open('/verif/spec/MzEnums.tla'):
    m = re.match(r'\s*En\("(ast::[\w:]+)", <<(.*)>>', l)
    if m:
        cs = re.findall(r'N\("(\w+)"\)|U\("(\w+)"', m.group(2))
        out.append('template<> struct constants<%s> { static constexpr std::pair<char const*, %s> table[] = {%s}; };' % (m.group(1), m.group(1), ', '.join('{"%s", %s::%s}' % (a or b, m.group(1), a or b) for a, b in cs)))
out.append('} // namespace mzast')
open('/verif/harness/mzast.h', 'w').write('\n'.join(out) + '\n')
print(len(bodies))
