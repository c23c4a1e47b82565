"""Properties decided by the shape of the program: what compiles, what is emitted, what is called."""
import re
from runner import *

GXX = 'g++'
CLANG = LLVM + '/clang++'
STDS = ['c++14', 'c++17', 'c++20']


def compile_src(work, text, name, cxx, std, extra=()):
    path = os.path.join(work.dir, name)
    open(path, 'w').write(text)
    cmd = [cxx, '-std=' + std, '-I' + os.path.join(REPO, 'include'), *extra, path]
    r = sh(cmd)
    return r


def first_error(r):
    for ln in r.stderr.splitlines():
        if 'error' in ln:
            ln = ln.replace(REPO + '/', '')
            m = re.match(r'(\S+?):(\d+):\d+: (?:fatal )?error: (.*)', ln)
            if m:
                return '%s:%s' % (m.group(1), m.group(2)), m.group(3)
            return '?', ln
    return '?', r.stderr[:300]


# ------------------------------------------------------------------ C17: self-contained headers
def c17(work, res):
    from concurrent.futures import ThreadPoolExecutor
    jobs = []
    for h in headers():
        for cxx in (CLANG, GXX):
            for std in STDS:
                jobs.append((h, cxx, std))

    def one(j):
        h, cxx, std = j
        return j, compile_src(work, '#include <floaxie/%s>\n#include <floaxie/%s>\n' % (h, h), 'h_%s_%s_%s.cpp' % (h[:-2], os.path.basename(cxx), std.replace('+', 'x')), cxx, std, ['-fsyntax-only'])
    with ThreadPoolExecutor(8) as ex:
        for (h, cxx, std), r in ex.map(one, jobs):
            res.add('self-contained', 1, r.returncode == 0)
            if r.returncode:
                w, m = first_error(r)
                res.violations.append({'kind': 'self-contained', 'where': w, 'msg': 'include/floaxie/%s does not compile on its own (%s, -std=%s): %s' % (h, os.path.basename(cxx), std, m)})
    # several translation units: nothing the headers define may be a strong definition
    src = ''.join('#include <floaxie/%s>\n' % h for h in headers()) + open(os.path.join(VERIF, 'harness', 'all.cpp')).read()
    path = os.path.join(work.dir, 'every.cpp')
    open(path, 'w').write(src)
    for std in STDS:
        try:
            d = work.scan(path, std)
        except Broken as e:
            if res.violations:
                break
            raise
        n = 0
        for s in d['functions'] + d['variables']:
            if s['decl'] or 'include/floaxie/' not in (s['file'] or '') and 'floaxie::' not in s['text']:
                continue
            n += 1
            ok = s['linkage'] not in ('external', 'other')
            res.add('one-definition', 1, ok)
            if not ok:
                res.violations.append({'kind': 'one-definition', 'where': '%s:%s' % (s['file'] or 'include/floaxie', s['line']), 'msg': '%s is defined in every translation unit, which includes the header (-std=%s)' % (s['text'], std)})
        if n < 40 and not res.violations:
            raise Broken('only %d library definitions found' % n)
    res.coverage['headers'] = len(headers())
    return (['compilers: clang 18 and g++ 13 of this machine'],
            'every header is compiled on its own, twice in a row, by two compilers in three language versions; linkage of every definition the headers emit is inspected in the IR')


def defined(work, res, name, std, least):
    """Every library function or variable the code refers to has a definition."""
    d = work.scan(name, std)
    F = {f['name']: f for f in d['functions']}
    V = {v['name']: v for v in d['variables']}
    n = 0
    for f in d['functions']:
        if f['decl']:
            continue
        for kind, callee, where in f['uses']:
            t = F.get(callee) or V.get(callee)
            if not t or 'floaxie::' not in t['text'].split('(')[0]:
                continue
            if t['text'].startswith('std::') and 'floaxie::' not in re.sub(r'<.*>', '', t['text']):
                continue
            n += 1
            ok = not t['decl']
            res.add('defined', 1, ok)
            if not ok:
                res.violations.append({'kind': 'defined', 'where': where, 'function': f['text'], 'msg': '%s is used, but not defined by the headers: programs using it do not link (-std=%s)' % (t['text'], std)})
    if n < least:
        raise Broken('only %d references to library functions found' % n)


# ------------------------------------------------------------------ C38: documented use
def c38(work, res):
    src = open(os.path.join(VERIF, 'harness', 'usage.cpp')).read()
    bad = False
    for cxx in (CLANG, GXX):
        for std in STDS:
            r = compile_src(work, src, 'usage_%s_%s.cpp' % (os.path.basename(cxx), std), cxx, std, ['-fsyntax-only'])
            res.add('usage', 1, r.returncode == 0)
            if r.returncode:
                w, m = first_error(r)
                bad = True
                res.violations.append({'kind': 'usage', 'where': w, 'msg': 'a documented use does not compile (%s, -std=%s): %s' % (os.path.basename(cxx), std, m)})
    if not bad:
        for std in STDS:
            defined(work, res, 'usage.cpp', std, 60)
    return ([], 'compile witnesses: the examples of README.md, nine kinds of callables as fallback functions with every character type, conversions of results, sizes as constants; a definition for every library symbol referred to')


# ------------------------------------------------------------------ C18: every string flavour is usable
def c18(work, res):
    bad = False
    for cxx in (CLANG, GXX):
        r = compile_src(work, open(os.path.join(VERIF, 'harness', 'all.cpp')).read(), 'all_%s.cpp' % os.path.basename(cxx), cxx, 'c++14', ['-fsyntax-only'])
        res.add('instantiation', 1, r.returncode == 0)
        if r.returncode:
            w, m = first_error(r)
            bad = True
            res.violations.append({'kind': 'instantiation', 'where': w, 'msg': 'an entry point cannot be instantiated (%s): %s' % (os.path.basename(cxx), m)})
    if bad:
        return [], 'instantiation of every entry point'
    for std in STDS:
        defined(work, res, 'all.cpp', std, 100)
    return ([], 'every entry point is instantiated for every floating point and character type; every library function or variable the emitted code refers to must have a definition')


# ------------------------------------------------------------------ C19: unsupported types are rejected
TYPES = ['int', 'long', 'unsigned long', 'char', 'bool', 'long double', '_Float16', '__float128']
USES = {'ftoa': 'floaxie::ftoa(v, (char*)b);', 'to_string': 'floaxie::to_string(v);', 'atof': '(void)floaxie::atof<T>((const char*)b, nullptr);',
        'from_string': '(void)floaxie::from_string<T>(*(std::string*)b);'}


def c19(work, res):
    from concurrent.futures import ThreadPoolExecutor
    jobs = [(t, u, cxx) for t in TYPES + ['float', 'double'] for u in USES for cxx in (CLANG, GXX)]

    def one(j):
        t, u, cxx = j
        src = '#include <floaxie/ftoa.h>\n#include <floaxie/atof.h>\ntypedef %s T;\nvoid f(T v, void* b) { %s }\n' % (t, USES[u])
        return j, compile_src(work, src, 'w_%s_%s_%s.cpp' % (t.replace(' ', '_'), u, os.path.basename(cxx)), cxx, 'gnu++14', ['-fsyntax-only'])
    with ThreadPoolExecutor(8) as ex:
        for (t, u, cxx), r in ex.map(one, jobs):
            if t in ('float', 'double'):
                if r.returncode:
                    raise Broken('the positive witness %s<%s> does not compile: %s' % (u, t, r.stderr[:500]))
                continue
            ok = r.returncode != 0
            res.add('rejected', 1, ok)
            if not ok:
                res.violations.append({'kind': 'rejected', 'where': 'include/floaxie/%s' % ('ftoa.h' if u in ('ftoa', 'to_string') else 'atof.h'), 'msg': '%s() accepts a value of the unsupported type %s (%s)' % (u, t, os.path.basename(cxx))})
    return (['positive witnesses for float and double compile'], 'compile-fail witnesses: conversions of unsupported types must not compile')


# ------------------------------------------------------------------ call graph rules
def reach(d, roots, stop=lambda f: False):
    F = {f['name']: f for f in d['functions']}
    seen, todo = {}, []
    for f in d['functions']:
        if roots(f):
            seen[f['name']] = None
            todo.append(f['name'])
    while todo:
        n = todo.pop()
        f = F[n]
        if stop(f):
            continue
        for kind, callee, where in f['uses']:
            if callee in F and callee not in seen:
                seen[callee] = (n, where)
                todo.append(callee)
    return F, seen


def path_text(F, seen, n):
    out = []
    while seen[n]:
        p, w = seen[n]
        out.append('%s (%s)' % (F[n]['text'].split('(')[0][-80:], w))
        n = p
    out.append(F[n]['text'].split('(')[0])
    return ' <- '.join(out)


def lib_where(F, seen, n):
    while seen[n]:
        p, w = seen[n]
        if 'include/floaxie' in w:
            return w
        n = p
    return '?'


def is_api(f):
    return f['name'].startswith('api_') and not f['decl']


NON_REENTRANT = {'strtok', 'setlocale', 'localeconv', 'rand', 'srand', 'random', 'gmtime', 'localtime', 'asctime', 'ctime', 'setenv', 'putenv', 'getenv',
                 'mblen', 'mbtowc', 'wctomb', 'strerror', 'ecvt', 'fcvt', 'gcvt', 'fesetround', 'fesetenv', 'uselocale', 'signal', 'tmpnam', 'lgamma', 'drand48'}


def c13(work, res, own=False):
    d = work.scan('all.cpp')
    F, seen = reach(d, is_api)
    V = {v['name']: v for v in d['variables']}
    ours = [n for n in seen if 'floaxie::' in F[n]['text']]
    if len(ours) < 60:
        raise Broken('only %d library functions are reachable from the entry points' % len(ours))
    guarded = {v['name'][4:] for v in d['variables'] if v['name'].startswith('_ZGV')}
    for n in sorted(seen):
        f = F[n]
        if f['decl']:
            ok = n not in NON_REENTRANT
            res.add('reentrant-callee', 1, ok)
            if not ok:
                res.violations.append({'kind': 'reentrant-callee', 'where': lib_where(F, seen, n), 'msg': 'conversions call %s(), which works on state shared by the whole process: %s' % (f['text'], path_text(F, seen, n))})
            continue
        for kind, g, where in f['uses']:
            if g not in V:
                continue
            v = V[g]
            if v['name'].startswith('_ZGV') or v['name'].startswith('_ZT'):
                continue
            shared = not v['constant'] and not v['constqual'] and (own or not v['tls'])
            if v['name'].startswith('_ZL') is False and v['name'].startswith('_ZSt'):
                shared = False if kind == 'load' else shared
            if shared and kind == 'atomic' and not own:
                shared = False
            res.add('shared-state', 1, not shared)
            if shared:
                res.violations.append({'kind': 'shared-state', 'where': where, 'function': f['text'], 'msg': 'a conversion %s the mutable variable %s (declared at %s:%s), which %s' % ({'load': 'reads', 'store': 'writes'}.get(kind, 'hands out'), v['text'], v['file'], v['line'], 'keeps its value between calls' if own else 'is shared between threads')})
    res.coverage['reachable_functions'] = len(seen)
    res.coverage['library_functions'] = len(ours)
    return (['errno of the C library is thread local', 'strtod() and its relatives are thread safe (POSIX)'],
            'effect analysis over the call graph of the IR: variables referenced by any function reachable from the entry points must be immutable, called library functions reentrant')


LOCALE = {'setlocale', 'localeconv', 'uselocale', 'newlocale', 'nl_langinfo', 'tolower', 'toupper', 'towlower', 'towupper', 'btowc', 'wctob', 'mbtowc', 'wctomb', 'mbstowcs', 'wcstombs',
          'mbrtowc', 'wcrtomb', 'mbsrtowcs', 'wcsrtombs', 'strcoll', 'wcscoll', 'strxfrm', 'strtod', 'strtof', 'strtold', 'wcstod', 'wcstof', 'wcstold', 'atof', 'sscanf', 'swscanf', 'snprintf', 'sprintf', 'swprintf', 'vsnprintf',
          '__ctype_b_loc', '__ctype_tolower_loc', '__ctype_toupper_loc', 'isalnum', 'isalpha', 'isdigit', 'isspace', 'ispunct', 'isupper', 'islower', 'isxdigit', 'iswalnum', 'iswalpha', 'iswspace', 'iswdigit', 'iswctype', 'strcasecmp', 'strncasecmp', 'wcscasecmp', 'wcsncasecmp', 'wctype', 'towctrans'}
LOCALE_FREE_OF_EFFECT = {'isdigit', 'isxdigit', 'iswdigit'}


def c22(work, res):
    d = work.scan('all.cpp')
    groups = [('printing and parsing with a fallback function of the caller', lambda f: is_api(f) and not re.match(r'api_(atof|atof_null|from_string)_[df]_', f['name'])),
              ('parsing with the default fallback function', lambda f: is_api(f) and re.match(r'api_(atof|atof_null|from_string)_[df]_', f['name']))]
    for what, roots in groups:
        F, seen = reach(d, roots)
        ours = [n for n in seen if 'floaxie::' in F[n]['text']]
        if len(ours) < 30:
            raise Broken('only %d library functions are reachable from the entry points' % len(ours))
        for n in sorted(seen):
            t = F[n]
            if not t['decl'] and 'floaxie::' not in t['text']:
                continue
            bad = t['decl'] and (n.replace('__isoc23_', '').replace('__isoc99_', '') in LOCALE - LOCALE_FREE_OF_EFFECT or 'std::locale' in t['text'] or 'use_facet' in t['text'])
            res.add('locale', 1, not bad)
            if bad:
                res.violations.append({'kind': 'locale', 'where': lib_where(F, seen, n), 'msg': '%s depends on the current locale through %s(): %s' % (what, t['text'], path_text(F, seen, n))})
        res.coverage['functions: ' + what] = len(seen)
    return ([], 'call graph of the IR: no locale dependent function may be reachable from the entry points')


def c12(work, res):
    return c13(work, res, True)


def c14(work, res):
    src = '#include <floaxie/ftoa.h>\n'
    n = 0
    for f in ('float', 'double'):
        for c in ('char', 'wchar_t', 'char16_t', 'char32_t'):
            src += 'static_assert(noexcept(floaxie::ftoa(%s(), static_cast<%s*>(nullptr))), "ftoa(%s, %s*) is declared noexcept");\n' % (f, c, f, c)
            n += 1
    r = compile_src(work, src, 'noexcept.cpp', CLANG, 'c++14', ['-fsyntax-only'])
    ok = r.returncode == 0
    res.add('noexcept', n, n if ok else 0)
    if not ok:
        if 'static assertion failed' not in r.stderr and 'static_assert' not in r.stderr:
            raise Broken('the witness does not compile: ' + r.stderr[-1500:])
        res.violations.append({'kind': 'noexcept', 'where': 'include/floaxie/ftoa.h', 'msg': first_error(r)[1]})
    return [], 'compile witness of the exception specification of ftoa()'


RULES = {'C12': c12, 'C14': c14, 'C17': c17, 'C18': c18, 'C19': c19, 'C13': c13, 'C22': c22, 'C38': c38}
