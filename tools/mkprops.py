#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the 30-odd entries stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],
      observe_at=observe or [],hook_needed=None)))
U='src/unicode.rs'
D='src/unicode/ucd/'
ALL='every one of the 1,114,112 code points 0..=0x10FFFF, surrogates and noncharacters included'
SAMPLE='The stable tests look up a few dozen code points; the UCD-wide sweep needs an XML file that is not in the repository, so almost every table entry is unobserved. One shifted block or one wrong entry among 1.1 million passes.'
p('C01','General_Category, Script, Block and Age are exact',
  'For every code point, the general category, script, block and age that the library reports are the ones Unicode 15.1.0 assigns, including the default value for code points the data files do not list.',
  ['inputs'],ALL+', for gc, sc, blk, age',SAMPLE,
  [D+'gc.rs',D+'sc.rs',D+'blk.rs',D+'age.rs','src/collections.rs',U],
  [('two-stage lookup','src/collections.rs TwoStageTable::at'),('tables',D+'{gc,sc,blk,age}.rs')],['Ucd::gc','Ucd::sc','Ucd::blk','Ucd::age'])
p('C02','Normalization data are exact: ccc, dt, dm, hst',
  'For every code point, the canonical combining class (both the value and its numeric rank), the decomposition type, the one-step decomposition mapping and the Hangul syllable type are the ones Unicode 15.1.0 assigns.',
  ['inputs'],ALL+', for ccc, dt, dm, hst',SAMPLE+' NormalizationTest covers the strings it lists only, through whole algorithms that can mask a wrong datum.',
  [D+'ccc.rs',D+'dt.rs',D+'dm.rs',D+'dm/dm_map.rs',D+'hst.rs','src/unicode/hangul.rs','src/unicode/props.rs'],
  [('two-stage lookup','src/collections.rs TwoStageTable::at'),('sorted map + binary search',D+'dm.rs dm'),('enum discriminants','src/unicode/props.rs Ccc')],['Ucd::ccc','Ucd::dt','Ucd::dm','Ucd::hst'])
p('C03','Segmentation data are exact: gcb, InSC, InCB, ExtPict',
  'For every code point, Grapheme_Cluster_Break, Indic_Syllabic_Category, Indic_Conjunct_Break and Extended_Pictographic have the values Unicode 15.1.0 assigns.',
  ['inputs'],ALL+', for gcb, insc, incb, ext_pict',SAMPLE,
  [D+'gcb.rs',D+'insc.rs',D+'derived_props.rs',D+'emoji_props.rs'],
  [('two-stage lookup','src/collections.rs TwoStageTable::at'),('InCB derivation',D+'derived_props.rs incb')],['Ucd::gcb','Ucd::insc','Ucd::incb','Ucd::ext_pict'])
p('C04','Bidi_Class and Word_Break are exact',
  'For every code point, Bidi_Class (including the per-range defaults for unassigned code points) and Word_Break have the values Unicode 15.1.0 assigns.',
  ['inputs'],ALL+', for bc, wb',SAMPLE,
  [D+'bc.rs',D+'wb.rs'],[('two-stage lookup','src/collections.rs TwoStageTable::at')],['Ucd::bc','Ucd::wb'])
p('C05','Every PropList binary property is exact',
  'For every code point and every binary property of PropList.txt that the library exposes (White_Space to Regional_Indicator), the reported truth value is the one Unicode 15.1.0 assigns.',
  ['inputs'],ALL+', for the 34 PropList properties',SAMPLE,
  [D+'binary_props.rs'],[('range tests',D+'binary_props.rs')],['Ucd::wspace .. Ucd::ri'])
p('C06','The emoji properties are exact',
  'For every code point, Emoji, Emoji_Presentation, Emoji_Modifier, Emoji_Modifier_Base, Emoji_Component and Extended_Pictographic are as in Unicode 15.1.0 emoji-data.',
  ['inputs'],ALL+', for the six emoji properties',SAMPLE,
  [D+'emoji_props.rs'],[('two-stage lookup','src/collections.rs TwoStageTable::at')],['Ucd::emoji .. Ucd::ext_pict'])
p('C07','Derived core properties follow their UAX #44 definitions',
  'For every code point, Math, Alphabetic, Lowercase, Uppercase, Cased, Case_Ignorable, Default_Ignorable_Code_Point, Grapheme_Extend, ID_Start, ID_Continue, Composition_Exclusion and Full_Composition_Exclusion have the value given by their Unicode 15.1.0 definition over the base properties.',
  ['inputs'],ALL+', for the 12 derived properties',SAMPLE,
  [D+'derived_props.rs',D+'normalization_props.rs',D+'ce.rs','src/unicode/normalization.rs'],
  [('derivations',D+'derived_props.rs'),('Full_Composition_Exclusion',D+'normalization_props.rs comp_ex'),('exclusion list',D+'ce.rs')],['Ucd::math .. Ucd::idc','Ucd::ce','Ucd::comp_ex'])
p('C08','XID_Start and XID_Continue are exact and closed under NFKC',
  'For every code point, XID_Start and XID_Continue are ID_Start and ID_Continue minus exactly the code points whose NFKC form would leave the identifier grammar, as Unicode 15.1.0 publishes; hence the NFKC form of an identifier is an identifier.',
  ['inputs'],ALL,SAMPLE,[D+'derived_props.rs'],[('exclusion lists',D+'derived_props.rs xids, xidc')],['Ucd::xids','Ucd::xidc'])
p('C09','Character names are exact, unique, and absent where there is none',
  'For every code point the Name property is the one Unicode 15.1.0 assigns, including the rule-derived names (Hangul syllables, CJK, Tangut, Nushu and Khitan ideographs); code points without a name give the empty string, and no two code points share a non-empty name.',
  ['inputs'],ALL,SAMPLE,[D+'na.rs',D+'na/na_table.rs',D+'jsn.rs','src/unicode/hangul.rs'],
  [('sorted map + binary search',D+'na.rs na'),('name rules NR1, NR2',D+'na.rs'),('syllable names','src/unicode/hangul.rs syllable_name')],['Ucd::na'])
p('C10','Property value names are the UCD aliases, one pair per value',
  'Every value of every enumerated property has a long and a short name, they are that value\'s own aliases in PropertyValueAliases 15.1.0, and no two values of a property share a name.',
  ['inputs'],'every variant of every property enumeration','Tests compare a handful of values; the name tables are hand-generated match arms.',
  [D+'property_names.rs','src/unicode/props.rs'],[('alias match arms',D+'property_names.rs'),('UnicodeProperty impls','src/unicode/props.rs')],['UnicodeProperty::property_value_name'])
p('C11','char and CodePoint receivers always agree',
  'For every Unicode scalar value, every property query gives the same answer whether it is asked of the char or of the CodePoint with that number.',
  ['inputs'],'every scalar value, for every method of the property trait','The two implementations are written out separately, about 65 methods each; tests exercise few methods and rarely both receivers.',
  [U],[('twin implementations',U+' impl Ucd for CodePoint / impl Ucd for char')],['Ucd'])
p('C12','CodePoint construction, round trip and display',
  'A CodePoint can be constructed from exactly the integers 0..=0x10FFFF, every other integer gives an error, the number read back is the one put in, converting a char keeps its number, and its textual form is U+ followed by at least four upper-case hexadecimal digits of that number.',
  ['inputs'],'every u32, every char','Tests try one or two numbers.',[U],[('range check',U+' CodePoint::new'),('Display',U+' impl Display for CodePoint')],['CodePoint::new','CodePoint::to_u32','ToCodePoint','Display'])
p('C13','Property queries never panic',
  'No property query on any code point, surrogates included, and no property query on any char, ever panics, overflows or indexes out of bounds.',
  ['inputs'],ALL+', for every property query of both receivers','Tests never query surrogates, and query few chars; a table one block short panics only for the code points of that block.',
  [U,D,'src/collections.rs','src/unicode/hangul.rs','src/unicode/normalization.rs'],[('bounds of table lookups','src/collections.rs TwoStageTable::at'),('surrogate handling','src/unicode/normalization.rs singleton_decomposition, non_starter_decomposition')],['Ucd'])
p('C14','Canonical decomposition of every character is the full one',
  'For every Unicode scalar value, NFD of the one-character string is its full (recursive) canonical decomposition in canonical order as Unicode 15.1.0 defines it, and NFD leaves compatibility-only characters unchanged.',
  ['inputs'],'every Unicode scalar value','NormalizationTest Part 1 is not swept: the test checks the listed lines, not every character that must stay unchanged or every recursion depth.',
  ['src/unicode/normalization.rs',D+'dm.rs','src/unicode/hangul.rs'],[('fixpoint decomposition','src/unicode/normalization.rs canonical_decomposition'),('ordering','src/unicode/normalization.rs canonical_ordering')],['Normalization::to_nfd'])
p('C15','Compatibility decomposition of every character is the full one',
  'For every Unicode scalar value, NFKD of the one-character string is its full (recursive) compatibility decomposition in canonical order as Unicode 15.1.0 defines it.',
  ['inputs'],'every Unicode scalar value','Same as the canonical one: only listed lines are tested.',
  ['src/unicode/normalization.rs',D+'dm.rs'],[('fixpoint decomposition','src/unicode/normalization.rs compatibility_decomposition')],['Normalization::to_nfkd'])
p('C16','Composed forms of every character are exact',
  'For every Unicode scalar value, NFC and NFKC of the one-character string are the canonical composition of its full canonical and compatibility decomposition as Unicode 15.1.0 defines it; in particular composition exclusions, singletons and non-starter decompositions are never recomposed and every primary composite is preserved by NFC.',
  ['inputs'],'every Unicode scalar value','Only listed lines are tested.',
  ['src/unicode/normalization.rs',D+'normalization_props.rs',D+'dm.rs'],[('composition','src/unicode/normalization.rs canonical_composition, primary_composite')],['Normalization::to_nfc','Normalization::to_nfkc'])
p('C17','Hangul syllables: arithmetic composition and decomposition are inverse',
  'Every one of the 11,172 Hangul syllables decomposes to its <L,V> or <L,V,T> jamo sequence and every such sequence, as well as every <LV,T> pair, composes back to exactly that syllable under NFC and NFKC; no pair outside these ranges composes arithmetically.',
  ['inputs'],'all L, V, T jamo combinations, all LV syllables times all T, and the code points just outside those ranges','The tests contain a few hundred syllables out of 11,172 and few boundary jamo (such as U+11A7).',
  ['src/unicode/hangul.rs',D+'dm.rs'],[('arithmetic','src/unicode/hangul.rs'),('range guards',D+'dm.rs rdm')],['Normalization'])
p('C18','Canonical ordering sorts combining marks, stably, for every run',
  'In the normalized forms, every maximal run of characters with non-zero combining class is in non-decreasing order of combining class, characters of equal class keep their relative order, and starters never move.',
  ['inputs'],'strings of a starter and two combining marks over all combining marks without decomposition, and longer runs over classes of marks','Orders are tested for the listed sequences only; the number of mark sequences is unbounded.',
  ['src/unicode/normalization.rs'],[('bubble sort','src/unicode/normalization.rs canonical_ordering, reorderable_pair')],['Normalization'])
p('C19','Pairs compose exactly when a primary composite exists',
  'For every two characters that do not decompose, NFC of their concatenation is the primary composite whose canonical decomposition is that pair if there is one that is not excluded, and the unchanged (canonically ordered) pair otherwise.',
  ['inputs'],'all ordered pairs of scalar values that have no canonical decomposition (about 10^12 pairs)','Tests contain about a thousand composing pairs and almost none of the pairs that must not compose.',
  ['src/unicode/normalization.rs',D+'dm.rs',D+'dm/dm_map.rs'],[('reverse map + binary search',D+'dm.rs rdm'),('primary composite','src/unicode/normalization.rs primary_composite')],['Normalization::to_nfc'])
p('C20','Blocking: only unblocked marks compose with the starter',
  'In a string of a starter followed by two further characters, a character composes with the last starter exactly when it is not blocked: adjacent to it, or separated only by non-starters of strictly lower combining class.',
  ['inputs'],'all triples <starter, mark, mark or starter> over characters without decomposition, grouped by the values composition depends on','Blocking is tested on a handful of sequences.',
  ['src/unicode/normalization.rs'],[('blocking','src/unicode/normalization.rs blocked, canonical_composition')],['Normalization::to_nfc'])
p('C21','Normalization never panics and stays within scalar values',
  'Normalizing any string to any of the four forms terminates without panic.',
  ['inputs'],'all strings; decided for the empty string, all one-character strings and the multi-character families of the other properties','Tests normalize listed strings only.',
  ['src/unicode/normalization.rs',U],[('decomposition/ordering/composition loops','src/unicode/normalization.rs')],['Normalization'])
p('C22','The four forms are related as UAX #15 requires',
  'For every string NFC equals the composition of NFD, NFKC the composition of NFKD, each form is idempotent, and applying NFD (NFKD) after NFC (NFKC) gives NFD (NFKD) of the original.',
  ['inputs'],'all strings; decided for every one-character string','Tests check these relations for the lines of NormalizationTest.',
  ['src/unicode/normalization.rs'],[('pipelines','src/unicode/normalization.rs nfd, nfkd, nfc, nfkc')],['Normalization'])
p('C23','Grapheme segmentation loses, repeats and reorders nothing',
  'For every string, segmentation yields non-empty pieces that are consecutive subslices of the input, and their concatenation is the input; the empty string yields no piece, and iteration ends without panic.',
  ['inputs'],'all strings; decided for all strings of up to four characters (every scalar value at each position)','Tests segment the listed strings only.',
  [U],[('slice advance',U+' BreakGraphemes::next')],['Segmentation::break_graphemes'])
p('C24','Grapheme boundaries are those of UAX #29',
  'For every string, the end of each piece is the first extended grapheme cluster boundary after its start according to UAX #29 revision 43 (rules GB3 to GB13, GB9c and GB999) with Unicode 15.1.0 data.',
  ['inputs'],'all strings; decided for the first boundary of all strings of up to five characters (every scalar value at each position)','GraphemeBreakTest has about 1,200 short lines, sampled at one representative per class and at most a few longer sequences; context-carrying state (flags, emoji and Indic sequences) after unusual prefixes is not covered.',
  [U,'src/unicode/seg.rs'],[('rule cascade',U+' BreakGraphemes::next'),('rule predicates','src/unicode/seg.rs')],['Segmentation::break_graphemes'],
  [dict(name='in_ext_pict, _ri_count, in_indic, indic_linker',meaning='rule context carried along the cluster',where=U+' BreakGraphemes::next')])
p('C25','Two-stage table lookup is the flat table, in bounds',
  'For every table and every index a lookup is defined for, the two-stage lookup returns the element of the flat sequence that its blocks encode, and never one from a neighbouring block.',
  ['inputs'],'every block size, stage tables and index of the declared types','Unit tests never exercise the generic container by itself.',
  ['src/collections.rs'],[('index split','src/collections.rs TwoStageTable::at')],['TwoStageTable::at'])
p('C26','Version constant, its text and its ordering',
  'The Unicode version constant is 15.1.0, the version whose data the tables hold; its text is the three numbers joined by dots, and versions order by major, then minor, then update number.',
  ['inputs'],'every pair of versions (three u32 each)','One test checks the one constant; ordering and text are untested.',
  [U],[('constant',U+' UNICODE_VERSION'),('derived ordering',U+' UnicodeVersion')],['UNICODE_VERSION','UnicodeVersion'])
p('C27','The library is pure: no state, no effects, no unsafe code',
  'Every answer depends only on the arguments: no library operation reads or writes global mutable or thread-local state (a cell filled once with a value computed from nothing but constants aside), performs input or output, reads the clock, environment or randomness, or uses unsafe code, so all of it can be used from any number of threads with the same results.',
  ['histories','schedules','inputs'],'every operation of the public interface, under any history of earlier calls and any interleaving','A test observes one history on one thread; hidden state shows only after particular earlier calls.',
  ['src/lib.rs',U,'src/collections.rs',D],[('no statics, no interior mutability','whole crate'),('borrowed constant tables',D)],['all public functions'])
p('C28','Invalid code points and dangling pieces are not expressible',
  'A program outside the crate cannot bring a CodePoint above 10FFFF into existence, neither by making nor by altering one; it cannot keep a grapheme piece longer than the text it was cut from (and can keep it that long), cannot change a text while it is being segmented or through its pieces, and can share all library values between threads.',
  ['programs'],'every client program','No test can show that no violating program compiles.',
  [U],[('private field',U+' CodePoint'),('lifetimes',U+' BreakGraphemes')],['type checker'])
p('C29','Decomposition and composition tables mirror each other',
  'The composition data are exactly the inverse of the two-character canonical decompositions that are not excluded, every mapping terminates (no cyclic decomposition), and a mapping is non-empty exactly where the decomposition type is not None.',
  ['inputs'],'every entry of the decomposition and composition data','Tests never iterate over either table; an entry present in one and missing in the other shows for that pair only.',
  [D+'dm.rs',D+'dm/dm_map.rs',D+'dt.rs'],[('twin maps',D+'dm/dm_map.rs DM_MAP, RDM_MAP'),('types',D+'dt.rs')],['Ucd::dm','Ucd::dt','Normalization::to_nfc'])
p('C30','Plain ASCII text is a fixed point',
  'Every string of ASCII characters is unchanged by all four normalization forms, and segments into single characters except for CR LF.',
  ['inputs'],'all ASCII strings; decided for up to three characters','ASCII strings are tested by example.',
  ['src/unicode/normalization.rs',U],[('decomposition lookup',D+'dm.rs'),('rules GB3-GB5, GB999','src/unicode/seg.rs')],['Normalization','Segmentation'])
p('C31','The table generator compresses losslessly',
  'The generator of the two-stage tables produces blocks and an index whose expansion is the input sequence, for every input sequence and block size.',
  ['inputs'],'every sequence and block size','The generator has no tests.',
  ['tools/ucd-tool/ucd/collections/two_stage_table.py','tools/ucd-tool/ucd-tool.py'],[('block deduplication','tools/ucd-tool/ucd/collections/two_stage_table.py')],['generated tables'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for e in P:
        assert len(e['title'])<=80,(e['id'],len(e['title']))
        f.write(json.dumps(e,ensure_ascii=False)+'\n')
print(len(P))
