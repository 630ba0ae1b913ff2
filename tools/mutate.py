#!/usr/bin/env python3
"""mutate.py <seed> <count> <file>... - mutation analysis of the checks (not a check itself).

Each mutant is one small textual change in a scratch copy of the repository; the checks of the properties the file serves
run against the copy (VERIF_REPO) until one rejects it.  Survivors are listed for review: equivalent, or a gap."""
import json, os, random, re, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY, BUILD = os.environ.get('MUT_COPY', '/tmp/x/mut/rp'), os.environ.get('MUT_BUILD', '/tmp/x/mut/vb')
LOG = os.environ.get('MUT_LOG', '/tmp/x/mut/log.jsonl')
MAP = [
    (r'cutf|mdfhelper', 'C08 C17 C11 C12 C09'),
    (r'timestamp|canopen', 'C17 C08 C14'),
    (r'zlibutil', 'C19 C09 C01 C15'),
    (r'dbchelper|half|idatawriter', 'C08 C09'),
    (r'cryptoutil|at4block|iattachment', 'C15 C14 C07'),
    (r'sortingtask|convertersamplequeue|mdfconverter|mdftask', 'C16 C01 C03 C02'),
    (r'mdf2csv', 'C23'),
    (r'cc[34]block|ichannelconversion', 'C12 C14 C16 C03'),
    (r'message|adapter|bus', 'C13 C07'),
    (r'observer', 'C09 C10 C13 C24 C12 C20'),
    (r'sr[34]|rd4|rv4|ld4|isamplereduction', 'C24 C09'),
    (r'readcache|reader', 'C09 C10 C11 C21 C24 C01'),
    (r'writer|queue|writecache', 'C01 C02 C03 C22 C05 C04 C06 C11 C18 C07 C13'),
    (r'ca4|array', 'C20 C14 C16'),
    (r'cn[34]block|ichannel', 'C08 C09 C11 C18 C20 C12 C14 C01 C03 C17'),
    (r'dz4|dl4|hl4|dt4|datablock|datalist|sd4|dg[34]', 'C09 C11 C01 C04 C21 C10 C06 C07 C14 C16'),
    (r'cg[34]', 'C01 C18 C09 C10 C21 C11 C24 C14 C13 C07'),
    (r'mdlist|mdprop|mdenum|mdsynt|mdvar|mdform|mdalt|mdnumber|mdstand|comment|ho[a-z]|unit', 'C25 C14'),
    (r'ev|ch4|fh|hd|si4|md|tx|xml|tag|metadata', 'C14 C25 C17 C04 C07'),
    (r'.', 'C01 C09 C14 C08 C07 C04'),
]
OPS = [
    (r'(?<![<>=!+\-*/&|^-])<(?![<=>])(?=\s)', '<='), (r'(?<![<>])<=(?!>)', '<'), (r'(?<=\s)>(?![>=])', '>='), (r'(?<![<>])>=', '>'),
    (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'), (r'(?<=\s)\+(?=\s)', '-'), (r'(?<=\s)-(?=\s)', '+'),
    (r'\b(\d+)\b(?!["\'])', lambda m: str(int(m.group(1)) + 1)), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
    (r'!(?=[A-Za-z_(])', ''), (r'\+=', '-='), (r'\bcontinue;', 'break;'), (r'\bbreak;', ''), (r'<<(?=\s*\d)', '>>'), (r'(?<=\s)%(?=\s)', '/'),
    (r'\*(?=\s)', '+'),
]
STMT = re.compile(r'^\s+[A-Za-z_][\w:.\->\[\]]*(\(.*\)| (=|\+=|-=|\|=|&=) .*|\+\+|--);\s*$')


def mutants(path, rng):
    src = open(path, encoding='utf8', newline='').read()
    lines = src.split('\n')
    out = []
    com = False
    for i, l in enumerate(lines):
        s = l.strip()
        if '/*' in s:
            com = True
        if com or s.startswith(('//', '#', '*', 'case', 'MDF_', 'using', 'return "')) or not s or 'MDF_' in s or 'constexpr' in s:
            if '*/' in s:
                com = False
            continue
        code = l.split('//')[0]
        quiet = re.sub(r'"[^"]*"', lambda m: '"' + ' ' * (len(m.group(0)) - 2) + '"', code)
        for pat, rep in OPS:
            for m in re.finditer(pat, quiet):
                new = code[:m.start()] + (rep(m) if callable(rep) else rep) + code[m.end():]
                out.append((i, l, new))
        if STMT.match(code):
            out.append((i, l, ';'))
    rng.shuffle(out)
    return lines, out


def main():
    seed, count, files = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:]
    if not os.path.exists(COPY):
        subprocess.run(['git', 'clone', '-q', '/repo', COPY], check=True)
    env = dict(os.environ, VERIF_REPO=COPY, VERIF_BUILD=BUILD, VERIF_SCALE=os.environ.get('VERIF_SCALE', '0.4'))
    rng = random.Random(seed)
    pool = []
    for f in files:
        lines, ms = mutants(COPY + '/' + f, rng)
        pool += [(f, m) for m in ms[:max(3, count)]]
    rng.shuffle(pool)
    for f, (i, old, new) in pool[:count]:
        p = COPY + '/' + f
        orig = open(p, encoding='utf8', newline='').read()
        lines = orig.split('\n')
        lines[i] = new + ('\r' if old.endswith('\r') else '')
        open(p, 'w', encoding='utf8', newline='').write('\n'.join(lines))
        t0 = time.time()
        res = 'SURVIVED'
        props = next(v for k, v in MAP if re.search(k, f)).split()
        for pr in props:
            r = subprocess.run([sys.executable, ROOT + '/tools/check.py', pr], env=env, capture_output=True, text=True)
            if r.returncode == 3 and 'compile failed' in r.stderr:
                res = 'stillborn'
                break
            if r.returncode == 1:
                res = 'killed by ' + pr
                break
            if r.returncode != 0:
                res = 'ERROR %s %s' % (pr, r.stderr[-600:])
                break
        open(p, 'w', encoding='utf8', newline='').write(orig)
        rec = {'file': f, 'line': i + 1, 'old': old.strip(), 'new': new.strip(), 'res': res, 't': round(time.time() - t0)}
        with open(LOG, 'a') as o:
            o.write(json.dumps(rec) + '\n')


main()
