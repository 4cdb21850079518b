"""C10: every tag and every long name means one field, in every table that says so."""
import ast

from ..clients import Base
from ..fold import Applied, Attr, Folder, Lam, Opaque, Raised, Unknown
from ..interp import Budget, C, Engine, T, is_c, show, subterms

# tag:long name  value   (documentation of the WOS tags)
#  first = the first line, all = the list of lines, sp = lines joined by a blank,
#  up/low = letter case, semi = split at '; ', int = number
WOS = '''
PT:pubType:first AF:authorsFull:all GP:group:first BE:editedBy:all AU:authorsShort:all BA:bookAuthor:all BF:bookAuthorFull:all CA:groupName:first
ED:editors:all TI:title:sp SO:journal:sp,up SE:seriesTitle:sp BS:seriesSubtitle:sp LA:language:comma DT:docType:first CT:confTitle:sp CY:confDate:first
HO:confHost:sp CL:confLocation:sp SP:confSponsors:comma,splitcomma DE:authKeywords:sp,low,semi ID:keywords:sp,up,semi AB:abstract:nl C1:authAddress:lines
RP:reprintAddress:first EM:email:sp,semi RI:ResearcherIDnumber:sp,semi OI:orcID:sp,semi FU:funding:sp,semi FX:fundingText:sp CR:citations:lines=Citation
NR:citedRefsCount:first,int TC:wosTimesCited:first,int Z9:totalTimesCited:first,int PU:publisher:sp,up PI:publisherCity:sp,up PA:publisherAddress:sp
SC:subjectCategory:sp,semi SN:ISSN:first EI:eISSN:first BN:ISBN:sp,semi J9:j9:first JI:isoAbbreviation:sp,up PD:month:first,blank,first,month PY:year:first,int
VL:volume:first IS:issue:first PN:partNumber:first SU:supplement:sp SI:specialIssue:first MA:meetingAbstract:first BP:beginningPage:first EP:endingPage:first
AR:articleNumber:first PG:pageCount:first,int WC:subjects:sp,semi DI:DOI:first D2:bookDOI:first GA:documentDeliveryNumber:first UT:wosString:first PM:pubMedID:first
'''
MED_NAMES = '''
AB:Abstract CI:CopyrightInformation AD:Affiliation IRAD:InvestigatorAffiliation AID:ArticleIdentifier AU:Author AUID:AuthorIdentifier FAU:FullAuthor
BTI:BookTitle CTI:CollectionTitle CN:CorporateAuthor CRDT:CreateDate DCOM:DateCompleted DA:DateCreated LR:DateLastRevised DEP:DateElectronicPublication
DP:DatePublication EN:Edition FED:Editor EDAT:EntrezDate GS:GeneSymbol GN:GeneralNote GR:GrantNumber IR:Investigator FIR:InvestigatorFull ISBN:ISBN IS:ISSN
IP:Issue TA:JournalTitleAbbreviation JT:JournalTitle LA:Language LID:LocationIdentifier MID:ManuscriptIdentifier MHDA:MeSHDate MH:MeSHTerms JID:NLMID
RF:NumberReferences OABL:OtherAbstract OCI:OtherCopyright OID:OtherID OT:OtherTerm OTO:OtherTermOwner OWN:Owner PG:Pagination PS:PersonalNameSubject
FPS:FullPersonalNameSubject PL:PlacePublication PHST:PublicationHistoryStatus PST:PublicationStatus PT:PublicationType PUBM:PublishingModel
PMC:PubMedCentralIdentifier PMCR:PubMedCentralRelease PMID:PubMedUniqueIdentifier RN:RegistryNumber NM:SubstanceName SI:SecondarySourceID SO:Source
SFM:SpaceFlightMission STAT:Status SB:Subset TI:Title TT:TransliteratedTitle VI:Volume VTI:VolumeTitle CIN:CommentIn EIN:ErratumIn EFR:ErratumFor
CRI:CorrectedRepublishedIn CRF:CorrectedRepublishedFrom DDIN:DatasetIn DRIN:DatasetUseReportedIn PRIN:PartialRetractionIn PROF:PartialRetractionOf
RPI:RepublishedIn RPF:RepublishedFrom RIN:RetractionIn ROF:RetractionOf UIN:UpdateIn UOF:UpdateOf SPIN:SummaryForPatients ORI:OriginalReportIn
'''
MED_FIRST = 'PG VI DP TI OTO AB TA JT'.split()
SCOPUS = {'comma': ['Authors'],
          'semi': ['Authors with affiliations', 'Author Keywords', 'Index Keywords', 'Tradenames', 'Manufacturers', 'Correspondence Address', 'ISBN',
                   'Language of Original Document'],
          'semicolon': ['Sponsors'],
          'int': ['Year', 'Page count', 'Cited by', 'Conference code'],
          'grants': ['Funding Details'], 'cites': ['References']}
COMMON = {
    'MedlineRecord': {'year': 'DP', 'month': 'DP', 'volume': 'VI', 'beginningPage': 'PG', 'DOI': 'AID', 'address': 'AD AU', 'j9': 'TA', 'grants': 'GR', 'authorsShort': 'AU',
                      'authorsFull': 'FAU', 'title': 'TI', 'journal': 'JT', 'keywords': 'OT', 'abstract': 'AB'},
    'ScopusRecord': {'year': 'Year', 'volume': 'Volume', 'beginningPage': 'Page start', 'j9': 'Abbreviated Source Title', 'citations': 'References', 'authorsShort': 'Authors',
                     'authorsFull': 'Authors', 'title': 'Title', 'journal': 'Source title', 'keywords': 'Index Keywords', 'abstract': 'Abstract'},
    'ProQuestRecord': {'authorsShort': 'Author', 'authorsFull': 'Author', 'keywords': 'Identifier / keyword', 'abstract': 'Abstract', 'year': 'Degree date', 'title': 'Title'},
}
TOKENS = {'first': [('first',)], 'all': [], 'sp': [('join', ' ')], 'nl': [('join', '\n')], 'comma': [('join', ', ')], 'splitcomma': [('split', ', ')], 'up': [('upper',)],
          'low': [('lower',)], 'semi': [('split', '; ')], 'int': [('int',)], 'blank': [('split', ' ')], 'month': [('getMonth',)]}
READABLE = {('first',): 'first line', ('int',): 'whole number', ('upper',): 'upper case', ('lower',): 'lower case'}
PRO_SINGLE = {'Author', 'Title', 'Advisor', 'Name', 'Committee member', 'Copyright', 'Country of publication', 'Database', 'Degree', 'Degree date', 'Department',
              'Dissertation/thesis number', 'Document type', 'Language', 'Number of pages', 'Place of publication', 'ProQuest document ID', 'Publication year', 'School code',
              'Source', 'Source type', 'University location', 'University/institution', 'ISBN', 'Publication subject'}


def parse(text):
    return {x.split(':')[0]: x.split(':', 1)[1] for x in text.split()}


def globs(fold, mods, pred):
    """module level names whose folded value satisfies pred: {(module, name): value}"""
    out = {}
    for mod in mods:
        env = fold.module(mod)
        for n, v in env.items():
            if v is not Unknown and not n.startswith('*') and pred(v):
                out[(mod.rel, n)] = v
    return out


def describe(p):
    return ', '.join(READABLE.get(x, ' '.join(repr(y) if i else y for i, y in enumerate(x))) for x in p) or 'the whole field'


class Client(Base):
    max_states = 60
    progress = False

    def __init__(self, fn, keep):
        self.fn, self.keep = fn, keep
        self.adds, self.bad, self.ctor, self.per = [], [], [], False

    def inline(self, eng, fn, st):
        return fn.mod is self.fn.mod and fn.name not in self.keep

    def on_call(self, eng, st, node, name, recv, args, kw):
        self.ctor.append((name.split('.')[-1], tuple(args), dict(kw or {})))

    def join_fact(self, k, a, b):
        if k == 'adds':
            return a if a == b else -1
        return Base.join_fact(self, k, a, b)

    def on_add(self, eng, st, t, v, node):
        st.facts['adds'] = st.facts.get('adds', 0) + 1
        self.adds.append((t, v, dict(st.conds), isinstance(node, (ast.ListComp, ast.GeneratorExp))))

    def on_loop(self, eng, st, node, phase, it=None, *a):
        if eng.fn is not self.fn and eng.fn.mod is not self.fn.mod:
            return
        if phase == 'enter':
            st.facts['adds'] = 0
        elif phase == 'iter-end':
            if st.facts.get('adds', 0) != 1:
                self.bad.append('a line gives {} values'.format(st.facts.get('adds', 0) if st.facts.get('adds', 0) >= 0 else 'a varying number of'))
            st.facts['adds'] = 0
        elif phase == 'break':
            self.bad.append('the loop over the lines stops early')


def pipe(t, val):
    """the operations that make t out of val, or None"""
    if t == val:
        return []
    if t[0] == 'it' and is_c(t[2]) and t[2][2] == 0:
        p = pipe(t[1], val)
        return None if p is None else p + [('first',)]
    if t[0] == 'it' and (is_c(t[2]) and isinstance(t[2][2], int) or t[2][0] == 'slice' and all(is_c(x) for x in t[2][1:])):
        p = pipe(t[1], val)
        if p is not None and t[2][0] == 'slice':
            k = [x[2] for x in t[2][1:]]
            return p if k in ([None] * 3, [0, None, None]) else p + [('part',) + tuple(k)]
        return None if p is None else p + [('item', t[2][2])]
    if t[0] == 'call' and t[1][0] == 'x' and t[1][1] in ('int', 'str', 'list') and len(t[2]) == 1:
        p = pipe(t[2][0], val)
        return None if p is None else p if t[1][1] != 'int' else p + [('int',)]
    if t[0] == 'call' and t[1][0] == 'f' and len(t[2]) == 1 and t[1][1].endswith('getMonth'):
        p = pipe(t[2][0], val)
        return None if p is None else p + [('getMonth',)]
    if t[0] == 'call' and t[1][0] == 'meth':
        name, recv = t[1][2], t[1][1]
        if name == 'join' and is_c(recv) and len(t[2]) == 1:
            p = pipe(t[2][0], val)
            return None if p is None else p + [('join', recv[2])]
        p = pipe(recv, val)
        if p is None:
            return None
        if name in ('strip', 'lstrip', 'rstrip'):
            return p
        if name in ('upper', 'lower'):
            return p + [(name,)]
        if name == 'split' and len(t[2]) == 1 and is_c(t[2][0]):
            return p + [('split', t[2][0][2])]
        if name == 'split' and not t[2]:
            return p + [('split', ' ')]
    return None


def values(ctx, lam, spec, key, rule):
    """does the tag function compute the documented value?"""
    m = ctx.model
    fn = next((f for f in m.funcs.values() if f.node is lam.node), None)
    if fn is None:
        if isinstance(lam.node, ast.Lambda) and spec in ('all', 'first'):
            b, a = lam.node.body, lam.node.args.args[0].arg
            ident = isinstance(b, ast.Name) and b.id == a
            first = isinstance(b, ast.Subscript) and isinstance(b.value, ast.Name) and b.value.id == a and isinstance(b.slice, ast.Constant) and b.slice.value == 0
            if ident or first:
                ctx.ob(rule, key, ident == (spec == 'all'), '{} gives {}, not {}'.format(key, 'the whole field' if ident else 'its first line',
                                                                                        'the whole field' if spec == 'all' else 'its first line'), lam.mod.rel)
                return
        ctx.undecided(rule, key, 'not a named function')
        return
    ctx.saw(fn)
    cl = Client(fn, ('getMonth',))
    eng = Engine(m, cl, 15000)
    arg = fn.node.args.args[0].arg if fn.node.args.args else 'val'
    val = T('p', arg)
    try:
        rets, raises = eng.run(fn, {arg: val})
    except Budget:
        ctx.undecided(rule, key, 'too many paths')
        return
    if not rets:
        ctx.ob(rule, key, False, '{} gives no value'.format(key), fn.where())
        return
    lines = spec.startswith('lines')
    for st, v in rets:
        if is_c(v):
            if v[2] is None or isinstance(v[2], (str, int)):
                ctx.ob(rule, key, False, '{} gives {!r} whatever the field holds'.format(key, v[2]), fn.where())
            continue
        if lines or spec in ('semis=Citation', 'semis=ScopusGrant'):
            o = eng.obj(st, v) if v[0] == 'r' else None
            if o is None or o.kind != 'list':
                p = pipe(v, val)
                if p is not None:
                    ctx.ob(rule, key, False, '{} gives {}, not one value for each line'.format(key, describe(p)), fn.where())
                else:
                    ctx.undecided(rule, key, 'value not recognised: ' + show(v)[:80])
                continue
            for b in cl.bad:
                ctx.ob(rule, key, False, '{}: {}'.format(key, b), fn.where())
            mine = [x for x in cl.adds if x[0] == v]
            if not mine:
                ctx.undecided(rule, key, 'nothing seen added')
                continue
            for _, x, conds, comp in mine:
                if comp and any(str(('el',))[1:-2] in str(c) for c in conds):
                    ctx.ob(rule, key, False, '{} leaves lines out'.format(key), fn.where())
            if spec == 'lines':
                for _, x, conds, comp in mine:
                    address(ctx, rule, key, x, conds, T('el', val), fn)
            if '=' in spec:
                want = spec.split('=')[1]
                src = T('el', val)
                if spec.startswith('semis'):
                    src = T('el', T('call', T('meth', val, 'split'), (C('; '),)))
                for name, args, kw in cl.ctor:
                    if name in ('Citation', 'ScopusGrant', 'MedlineGrant'):
                        ctx.ob(rule, key, name == want, '{} makes a {} of each entry, not a {}'.format(key, name, want), fn.where())
                        if name == 'Citation':
                            mode = kw.get('scopusMode', args[1] if len(args) > 1 else C(False))
                            if is_c(mode):
                                ctx.ob(rule, key, bool(mode[2]) == spec.startswith('semis'), '{} reads its citations in the {} form'.format(
                                    key, 'Scopus' if mode[2] else 'WOS'), fn.where())
                        if args:
                            p = pipe(args[0], src)
                            if p is None:
                                ctx.undecided(rule, key, 'argument not recognised')
                            else:
                                ctx.ob(rule, key, not p, '{} makes it from {} of the entry'.format(key, describe(p)), fn.where())
            ctx.ob(rule, key, True)
            continue
        if spec == 'pmid':
            ok = val in set(subterms(v)) and T('it', val, C(0)) in set(subterms(v))
            ctx.ob(rule, key, ok, '{} is not made from the first line'.format(key), fn.where())
            continue
        want = [x for s in spec.split(',') for x in TOKENS[s]]
        p = pipe(v, val)
        if p is None:
            ctx.undecided(rule, key, 'value not recognised: ' + show(v)[:80])
            continue
        if key == 'WOSRecord PY' and p == want:
            four = [(c, w) for c, w in st.conds.items() if c[0] == 'cmp' and c[1] == '==' and any(is_c(x) and x[2] == 4 for x in c[2:])]
            if not four and any('len(' in show(c) for c in st.conds):
                ctx.ob(rule, key, False, 'a year that is not four characters long is accepted', fn.where())
            for c, w in four:
                ctx.ob(rule, key, w, 'a year of four characters is refused, others are accepted', fn.where())
        ctx.ob(rule, key, same(p, want), '{} gives {}, documented is {}'.format(key, describe(p), describe(want)), fn.where())
    for st, exc, node, implicit in raises:
        if not implicit and not any(s in spec for s in ('int', 'month')):
            ctx.ob(rule, key, False, '{} refuses some values'.format(key), fn.where())


def address(ctx, rule, key, x, conds, el, fn):
    """an address line is taken without the leading list of authors in brackets"""
    brack = [w for c, w in conds.items() if c[0] == 'cmp' and c[1] == '==' and C('[') in c[2:] and T('it', el, C(0)) in c[2:]] + \
            [w for c, w in conds.items() if c[0] == 'truth' and c[1][0] == 'call' and c[1][1] == T('meth', el, 'startswith') and c[1][2] == (C('['),)]
    other = [c for c in conds if el in set(subterms(c)) and c[0] == 'cmp']
    if len(brack) != 1:
        if other and not brack:
            ctx.ob(rule, key, False, 'the authors in brackets are not recognised by the first character', fn.where())
        return
    if x == el:
        ctx.ob(rule, key, not brack[0], 'the authors in brackets stay in the address', fn.where())
    elif el in set(subterms(x)):
        ctx.ob(rule, key, brack[0], 'an address without authors in brackets is cut', fn.where())
        for y in subterms(x):
            if y[0] == 'it' and y[2][0] == 'slice' and y[1][0] == 'call' and show(y[1][1]).endswith('split'):
                ctx.ob(rule, key, y[2][1] == C(1) and y[2][2] == C(None), 'not everything after the authors in brackets is taken', fn.where())


def same(p, w):
    """the same value: letter case may change before or after splitting or joining"""
    case = [x for x in p if x[0] in ('upper', 'lower')]
    wcase = [x for x in w if x[0] in ('upper', 'lower')]
    return [x for x in p if x not in case] == [x for x in w if x not in wcase] and set(case) == set(wcase)


def reads(m, lam, seen=None):
    """(fields a special function reads, does it do anything not recognised)"""
    seen = seen if seen is not None else set()
    if lam.node in seen:
        return set(), False
    seen.add(lam.node)
    args = [a.arg for a in lam.node.args.args]
    if not args:
        return set(), True
    rec = args[0]
    out, odd = set(), False
    body = [lam.node.body] if isinstance(lam.node, ast.Lambda) else lam.node.body
    names = {rec}
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in names:
                names |= {t.id for t in n.targets if isinstance(t, ast.Name)}
    for b in body:
        for n in ast.walk(b):
            if not (isinstance(n, ast.Name) and n.id in names):
                continue
            p = getattr(n, '_parent', None)
            if isinstance(p, ast.Subscript) and p.value is n:
                if isinstance(p.slice, ast.Constant):
                    out.add(p.slice.value)
                else:
                    odd = True
            elif isinstance(p, ast.Attribute) and p.value is n:
                g = getattr(p, '_parent', None)
                if isinstance(g, ast.Call) and g.func is p:
                    if p.attr == 'get' and g.args and isinstance(g.args[0], ast.Constant):
                        out.add(g.args[0].value)
                    elif p.attr == 'createCitation':
                        out.add('()createCitation')
                    else:
                        odd = True
                else:
                    out.add('.' + p.attr)
            elif isinstance(p, ast.Call) and n in p.args:
                r = m.resolve_expr(lam.mod, p.func)
                if r and r[0] == 'f' and p.args[0] is n:
                    a, o = reads(m, Lam(r[1].node, r[1].mod, None, r[1].name), seen)
                    out |= a
                    odd = odd or o
                else:
                    odd = True
            elif isinstance(p, ast.Compare) and n in p.comparators:
                if isinstance(p.left, ast.Constant) and isinstance(p.ops[0], (ast.In, ast.NotIn)):
                    pass
                else:
                    odd = True
            elif isinstance(p, ast.Assign) or isinstance(n.ctx, ast.Store):
                pass
            else:
                odd = True
    return out, odd


def answer(fold, fn, arg):
    """('v', value) / ('e', exception name) / None when not constant"""
    try:
        return ('v', fold.call(Lam(fn.node, fn.mod, None, fn.name), [arg]))
    except Raised as e:
        return ('e', e.name)
    except (Unknown, RecursionError):
        return None


def run(ctx):
    m = ctx.model
    fold = Folder(m)
    ctx.rule('unique', 'no table gives one tag or name twice; no two tags share a name')
    ctx.rule('names', 'every documented tag has its documented long name')
    ctx.rule('derived', 'tables made from each other hold the same pairs')
    ctx.rule('answers', 'tagToFull, normalizeToTag, normalizeToName and isTagOrName answer by the tables and raise KeyError otherwise')
    ctx.rule('hooks', 'each record class uses the tables of its own source')
    ctx.rule('common', 'common fields come from the documented tags of the source and never from themselves')
    ctx.rule('values', 'each tag function gives the documented value, from all lines where the field can wrap')
    ctx.rule('months', 'month names and seasons give their number')
    wos = parse(WOS)
    wnames = {k: v.split(':')[0] for k, v in wos.items()}
    mnames = parse(MED_NAMES)
    # repeated keys in any table of the package
    n = 0
    for mod in m.mods.values():
        for node in ast.walk(mod.tree):
            keys = None
            if isinstance(node, ast.Dict):
                keys = [k.value for k in node.keys if isinstance(k, ast.Constant)]
                vals = {k.value: [ast.dump(v) for kk, v in zip(node.keys, node.values) if isinstance(kk, ast.Constant) and kk.value == k.value]
                        for k in node.keys if isinstance(k, ast.Constant)}
            elif isinstance(node, ast.Call) and (isinstance(node.func, ast.Name) and node.func.id in ('OrderedDict', 'dict') or
                                                 isinstance(node.func, ast.Attribute) and node.func.attr == 'OrderedDict') and node.args and isinstance(node.args[0], ast.List):
                prs = [e.elts for e in node.args[0].elts if isinstance(e, ast.Tuple) and len(e.elts) == 2 and isinstance(e.elts[0], ast.Constant)]
                keys = [a.value for a, b in prs]
                vals = {a.value: [ast.dump(y) for x, y in prs if x.value == a.value] for a, b in prs}
            if not keys or len(keys) < 3:
                continue
            n += 1
            where = '{}:{}'.format(mod.rel, node.lineno)
            name = table_name(node)
            dup = sorted({k for k in keys if len(set(vals[k])) > 1}, key=str)
            for k in dup:
                ctx.ob('unique', '{}:{}[{!r}]'.format(mod.rel, name, k), False, 'the table {} gives {!r} twice with different values, one is lost'.format(name, k), where)
            if not dup:
                ctx.ob('unique', '{}:{}'.format(mod.rel, name), True)
    ctx.count('tables searched for repeated keys', n)
    # the tables, found by what they hold
    wmods = [x for x in m.mods.values() if '.WOS' in x.name]
    mmods = [x for x in m.mods.values() if '.medline' in x.name]
    for src, mods, names in (('WOS', wmods, wnames), ('medline', mmods, mnames)):
        pairs = set(names.items())
        mutual = pairs | {(b, a) for a, b in pairs}
        upper = {(b.upper(), a) for a, b in pairs}
        tabs = globs(fold, mods, lambda v: isinstance(v, dict) and len(v) > len(pairs) // 2 and all(isinstance(a, str) and isinstance(b, str) for a, b in v.items()))
        ctx.count(src + ' name tables', len(tabs))
        if not tabs:
            ctx.undecided('names', src, 'no constant name table found')
        for (rel, name), v in sorted(tabs.items()):
            got = set(v.items())
            best = max((pairs, {(b, a) for a, b in pairs}, mutual, upper), key=lambda s: (len(s & got), -len(s)))
            if len(best & got) < len(best) // 2:
                continue
            # entries for tags outside the documented list are allowed as long as they are consistent
            tags = {a for a, b in best}
            miss = sorted(best - got)
            fore = [p for p in got - best if p[0] in tags or p[0] in {b for a, b in best}]
            for a, b in miss[:4]:
                ctx.ob('names', '{}:{}[{!r}]'.format(rel, name, a), False, '{} gives {!r} for {!r}, not {!r}'.format(name, v.get(a), a, b), rel)
            for a, b in fore[:4]:
                ctx.ob('names', '{}:{}[{!r}]'.format(rel, name, a), False, '{} gives {!r} for {!r}'.format(name, b, a), rel)
            ctx.ob('names', '{}:{}'.format(rel, name), not miss and not fore, 'documented names are missing', rel)
            if best is mutual:
                for a, b in v.items():
                    ctx.ob('derived', '{}:{}[{!r}]'.format(rel, name, a), v.get(b) == a, '{} leads from {!r} to {!r} but from there to {!r}'.format(name, a, b, v.get(b)), rel)
            else:
                back = {}
                for a, b in v.items():
                    back.setdefault(b, []).append(a)
                for b, aa in back.items():
                    if best is upper and len(set(aa)) > 1:
                        continue
                    ctx.ob('unique', '{}:{}->{!r}'.format(rel, name, b), len(aa) == 1, '{} share {!r} in {}'.format(' and '.join(aa), b, name), rel)
    # every set or list of tags in the WOS tables
    full = set(wnames) | set(wnames.values())
    for (rel, name), v in globs(fold, wmods, lambda v: isinstance(v, (set, list, frozenset, tuple)) and len(v) > 30 and all(isinstance(x, str) for x in v)).items():
        got = set(v)
        want = max((set(wnames), set(wnames.values()), full, {x.upper() for x in full}), key=lambda s: (len(s & got), -len(s)))
        ctx.ob('derived', '{}:{}'.format(rel, name), want <= got, '{} does not hold {}'.format(name, ', '.join(sorted(want - got)[:4])), rel)
    # functions over the tables
    known = dict(wnames)
    odd = 'no such tag'
    for name in ('tagToFull', 'normalizeToTag', 'normalizeToName', 'isTagOrName'):
        fns = [f for f in m.funcs.values() if f.name == name and f.cls is None and f.parent is None and '.WOS' in f.mod.name]
        for fn in fns:
            ctx.saw(fn)
            asks = []
            for t, l in known.items():
                if name == 'tagToFull':
                    asks += [(t, ('v', l))]
                elif name == 'normalizeToTag':
                    asks += [(t, ('v', t)), (l, ('v', t)), (t.lower(), ('v', t)), (l.upper(), ('v', t)), (l.lower(), ('v', t))]
                elif name == 'normalizeToName':
                    asks += [(t, ('v', l)), (l, ('v', l))]
                else:
                    asks += [(t, ('v', True)), (l, ('v', True))]
            asks += [(odd, ('v', False) if name == 'isTagOrName' else ('e', 'KeyError'))]
            if name == 'normalizeToTag':
                asks += [(7, ('e', 'KeyError'))]
            for q, want in asks:
                got = answer(fold, fn, q)
                if got is None:
                    ctx.undecided('answers', name, 'not constant for {!r}'.format(q))
                    break
                if got != want:
                    ctx.ob('answers', name, False, '{}({!r}) gives {}, not {}'.format(name, q, got[1], want[1]), fn.where())
            else:
                ctx.ob('answers', name, True)
    hooks(ctx, fold, wnames, mnames)
    months(ctx, fold)


def table_name(node):
    p = node
    while p is not None and not isinstance(p, (ast.Assign, ast.AnnAssign, ast.FunctionDef)):
        p = getattr(p, '_parent', None)
    if isinstance(p, ast.Assign) and isinstance(p.targets[0], ast.Name):
        return p.targets[0].id
    if isinstance(p, ast.FunctionDef):
        return p.name
    return 'table'


def months(ctx, fold):
    m = ctx.model
    fns = [f for f in m.funcs.values() if f.name == 'getMonth']
    want = {n: i + 1 for i, n in enumerate('JAN FEB MAR APR MAY JUN JUL AUG SEP OCT NOV DEC'.split())}
    want.update(SPR=3, SUM=6, FAL=9, WIN=12)
    for fn in fns:
        ctx.saw(fn)
        for n, k in want.items():
            for q in (n, n.title(), n.lower(), n + '-DEC'):
                got = answer(fold, fn, q)
                if got is None:
                    ctx.undecided('months', 'getMonth', 'not constant')
                    return
                ctx.ob('months', 'getMonth', got == ('v', k), 'getMonth({!r}) gives {!r}, not {}'.format(q, got[1], k), fn.where())
        for q, k in (('2012-11', 11), ('2012-4', 4)):
            got = answer(fold, fn, q)
            if got is not None:
                ctx.ob('months', 'getMonth', got[0] == 'v' and got[1] == k and type(got[1]) is int, 'getMonth({!r}) gives {!r}, not the number {}'.format(q, got[1], k), fn.where())


def hooks(ctx, fold, wnames, mnames):
    m = ctx.model
    common = None
    for mod in m.mods.values():
        try:
            common = fold.glob(mod, 'commonRecordFields')
            break
        except Unknown:
            continue
    for cn in ('WOSRecord', 'MedlineRecord', 'ProQuestRecord', 'ScopusRecord'):
        c = next((k for k in m.classes.values() if k.name == cn), None)
        if c is None:
            continue
        names = {'WOSRecord': wnames, 'MedlineRecord': mnames}.get(cn, {})
        alt, proc, spec = (m.method(c, x) for x in ('getAltName', 'tagProcessingFunc', 'specialFuncs'))
        # other names
        if alt is not None:
            ctx.saw(alt)
            asks = [(t, n) for t, n in names.items()] + [(n, t) for t, n in names.items()] + [('no such tag', None)]
            for q, want in asks:
                got = answer(fold, alt, q)
                if got is None:
                    ctx.undecided('hooks', cn + '.getAltName', 'not constant')
                    break
                ctx.ob('hooks', cn + '.getAltName', got == ('v', want), '{}.getAltName({!r}) gives {!r}, not {!r}'.format(cn, q, got[1], want), alt.where())
        if proc is not None:
            ctx.saw(proc)
            process(ctx, fold, cn, proc, names)
        if spec is None or common is None:
            continue
        ctx.saw(spec)
        special(ctx, fold, c, cn, spec, common, names)


def identity(fold, f):
    probe = ['line one', 'line two']
    if not isinstance(f, Lam):
        return None
    try:
        return fold.call(f, [probe]) is probe
    except (Unknown, Raised):
        return None


def process(ctx, fold, cn, proc, names):
    m = ctx.model
    want = {}
    if cn == 'WOSRecord':
        want = {k: v.split(':')[1] for k, v in parse(WOS).items()}
    elif cn == 'MedlineRecord':
        want = {k: 'first' if k in MED_FIRST else 'all' for k in names}
        want.update(PMID='pmid', GR='lines=MedlineGrant', AD=None, AUID=None)
    elif cn == 'ScopusRecord':
        for k, tags in SCOPUS.items():
            for t in tags:
                want[t] = {'comma': 'splitcomma', 'semi': 'semi', 'semicolon': 'semicolon', 'int': 'int', 'grants': 'semis=ScopusGrant', 'cites': 'semis=Citation'}[k]
        for t in ('Title', 'Source title', 'Volume', 'Issue', 'Art. No.', 'Page start', 'Page end', 'DOI', 'Link', 'Abstract', 'Editors', 'Publisher', 'ISSN', 'CODEN',
                  'PubMed ID', 'Abbreviated Source Title', 'Document Type', 'Source', 'EID'):
            want[t] = 'all'
    elif cn == 'ProQuestRecord':
        want = {t: 'first' for t in PRO_SINGLE}
        want['Abstract'] = 'all'
        want.update({'Subject': 'psemi', 'Identifier / keyword': 'pcomma'})
    TOKENS.setdefault('semicolon', [('split', ';')])
    TOKENS.setdefault('psemi', [('first',), ('split', '; ')])
    TOKENS.setdefault('pcomma', [('first',), ('split', ', ')])
    for tag, spec in sorted(want.items()):
        got = answer(fold, proc, tag)
        key = '{} {}'.format(cn, tag)
        if got is None:
            ctx.undecided('values', key, 'function of the tag is not constant')
            continue
        if got[0] == 'e' or not isinstance(got[1], Lam):
            ctx.ob('hooks', key, False, '{}.tagProcessingFunc({!r}) gives {!r}'.format(cn, tag, got[1]), proc.where())
            continue
        lam = got[1]
        if cn in ('WOSRecord', 'MedlineRecord') and not isinstance(lam.node, ast.Lambda):
            other = {k for k in names if k != tag and (names[k] if cn == 'WOSRecord' else k) == lam.name}
            ctx.ob('hooks', key, not other, 'the tag {} is processed by the function of {}'.format(tag, ', '.join(other)), proc.where())
            if not other and cn == 'WOSRecord':
                ctx.ob('hooks', key, not isinstance(lam.node, ast.Lambda), '', proc.where())
        if isinstance(lam.node, ast.Lambda) and cn in ('WOSRecord', 'ScopusRecord') and spec not in (None, 'all'):
            ctx.ob('hooks', key, identity(fold, lam) is not True, 'the tag {} has no function of its own'.format(tag), proc.where())
        if spec is not None:
            values(ctx, lam, spec, key, 'values')
    got = answer(fold, proc, 'no such tag')
    if got is not None and got[0] == 'v':
        ok = identity(fold, got[1])
        if ok is not None:
            ctx.ob('hooks', cn + '.tagProcessingFunc', ok, 'the text of an unknown tag is changed', proc.where())
    elif got is not None:
        ctx.ob('hooks', cn + '.tagProcessingFunc', False, 'an unknown tag raises {}'.format(got[1]), proc.where())


def special(ctx, fold, c, cn, spec, common, names):
    m = ctx.model
    edges = {}
    fields = COMMON.get(cn, {})
    for q in sorted(set(common) | set(fields)):
        key = '{} {}'.format(cn, q)
        try:
            got = fold.call(Lam(spec.node, spec.mod, None, spec.name), [Opaque('self'), q])
        except Raised as e:
            ctx.ob('common', key, e.name == 'KeyError', 'asking for {} raises {}'.format(q, e.name), spec.where())
            if q in fields or q in ('id', 'selfCitation') or (cn, q) == ('WOSRecord', 'grants'):
                ctx.ob('common', key, False, '{} gives no value for {}'.format(cn, q), spec.where())
            continue
        except (Unknown, RecursionError):
            ctx.undecided('common', key, 'not constant')
            continue
        if isinstance(got, Applied) and isinstance(got.args[0], Opaque):
            r, strange = reads(m, got.fn)
        elif isinstance(got, Attr):
            r, strange = {'()createCitation'} if got.called and got.name == 'createCitation' else {'.' + got.name} if isinstance(got.name, str) else {got.name[1]}, False
        else:
            if (cn, q) == ('WOSRecord', 'grants'):
                ctx.ob('common', key, got == [], 'the grants of a WOS record are {!r}'.format(got), spec.where())
            elif q in fields:
                ctx.ob('common', key, False, '{} of a {} is always {!r}'.format(q, cn, got), spec.where())
            continue
        where = spec.where()
        if q == 'selfCitation':
            ctx.ob('common', key, r == {'()createCitation'} or strange, 'selfCitation is made from {}'.format(', '.join(map(str, r))), where)
        elif q == 'id':
            ctx.ob('common', key, bool(r & {'.id', '._id'}) or strange, 'id is made from {}'.format(', '.join(map(str, r))), where)
        edges[q] = {x for x in r if isinstance(x, str) and x[:1] not in '(.'}
        if '()createCitation' in r:
            cc = m.method(c, 'createCitation')
            if cc is not None:
                a, o = reads(m, Lam(cc.node, cc.mod, None, cc.name))
                edges[q] |= {x for x in a if isinstance(x, str)}
        if q in fields:
            want = set(fields[q].split()) if cn == 'MedlineRecord' else {fields[q]}
            other = {k for k, v in names.items()} if names else set()
            got_tags = {({b: a for a, b in names.items()}).get(x, x) for x in edges[q]}
            if not got_tags and strange:
                ctx.undecided('common', key, 'fields read not recognised')
            else:
                ctx.ob('common', key, got_tags == want or strange and want <= got_tags,
                       '{} of a {} is made from {}, documented is {}'.format(q, cn, ', '.join(sorted(got_tags)) or 'nothing', ', '.join(sorted(want))), where)
    try:
        fold.call(Lam(spec.node, spec.mod, None, spec.name), [Opaque('self'), 'no such field'])
        ctx.ob('common', cn + ' unknown', False, 'a field {} does not have gets a value'.format(cn), spec.where())
    except Raised as e:
        ctx.ob('common', cn + ' unknown', e.name == 'KeyError', 'an unknown field raises {}'.format(e.name), spec.where())
    except (Unknown, RecursionError):
        ctx.undecided('common', cn + ' unknown', 'not constant')
    for q in edges:
        seen, stack = set(), [q]
        while stack:
            x = stack.pop()
            for y in edges.get(x, ()):
                if y == q:
                    ctx.ob('common', '{} {}'.format(cn, q), False, 'computing {} of a {} asks for {} again without end'.format(q, cn, q), spec.where())
                    stack = []
                    break
                if y not in seen:
                    seen.add(y)
                    stack.append(y)
