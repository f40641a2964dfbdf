import pathlib, json
V=pathlib.Path('/verif')
head='''# Design

The target, gempakio, is a pure Python library that reads and writes GEMPAK files (grids, soundings, surface
reports) and vector graphics (VGF) files. It has no threads, no native code and no on-disk state of its own, so
of the runtime-monitoring family the parts that apply are monitors over executions of the real code: the library
is imported from `/repo/src` (nothing is built, patched or hooked), driven by generated workloads, and everything
observable - bytes written, values returned, exceptions, arguments afterwards, work done - is judged by an oracle
that shares no code with it. Memory and race sanitizers have nothing to instrument here; their place is taken by
a step budget (`sys.monitoring` JUMP events inside the target), an address-space limit and a hang watchdog.

## Machinery

| file | role |
|---|---|
| `check.sh`, `vt/core.py` | case runner: every random choice derives from (seed, property, case index); parallel workers; step budget, memory limit, watchdog; verdicts, replay files, known findings, evidence |
| `vt/dm.py` | independent writer and strict parser of GEMPAK data-management files (both byte orders, unused headers, free space, packed and plain parts, text parts, navigation blocks), bit packers |
| `vt/mapproj.py` | textbook spherical map projections and GEMPAK navigation |
| `vt/refgrid.py` | reference packing and unpacking of grids (plain, GRIB, DEC, difference) |
| `vt/thermo.py`, `vt/raobref.py` | published thermodynamic formulas; independent merge of raob parts |
| `vt/stn.py`, `vt/build.py`, `vt/world.py` | content models: what was put into a file, in all documented spellings; random files of every kind with a model of every entry |
| `vt/vgw.py`, `vt/vgrec.py` | reference encoder of written VGF elements; independent writer of VGF records of every type and version, with the attributes a reader has to show |
| `vt/codes.py` | frozen copy of the published code tables |
| `vt/observe.py` | canonical form of anything a reader returns, used to compare answers |
| `vt/checks/cNN.py` | one monitor per property |
| `tools/` | `mkprops.py`, `mkmanifest.py` (regenerate the two lists), `mkseed.py` (plants and confirms a bug), `runseed.sh` (runs checks against one) |

A check runs `QUICK` cases (thorough: 15 times as many, same generators), prints `VIOLATION property=... replay=...`
for each violation kind with a replay file, and exits 1. It exits 3 (inconclusive) when a counter in `REQUIRE`
- events the monitors must have observed - stays below its minimum, so a generator or a target that silently stops
reaching something cannot pass. Evidence lists the counters, the number of distinct situations (keys), samples and
loop steps executed in the target. Quick runs take 5 to 40 s on 8 cores, thorough ones 3 to 10 minutes.

Anything unexpected counts against the target: an exception escaping from a call that has to succeed, an answer the
monitor cannot interpret (`answer-not-understood`), more loop steps than a correct run needs (`StepLimit`), a case
that hangs (stack recorded after 150 s). Once a violation that is not a listed finding has been seen, a run stops 45 s later.

Why this reaches what tests cannot: the tests compare about twenty fixture files and a few written ones. The
monitors see tens of thousands of different files per run, including layouts the fixtures do not have (byte
orders, unused slots, every packing width, old record versions, missing values in any position), call histories
(interleaved readers, repeated writes, failing calls, edits), and faults (cuts, corruption, I/O errors).

## Properties, oracles and bounds

'''
P={
'C01':('write random grids (1x1 to 30x30; all numeric types and memory layouts; constant, tiny, huge, negative, clustered values; any missing pattern) at precision 1-31 and read back','value within half a packing step computed from the range, the bits and the decimal/binary scale the format allows; missing mask identical','values not equal to or straddling -9999; range below 2^31'),
'C02':('1-8 grids with every spelling of times, types, offsets, second times, levels, coordinates, names from small pools so that keys collide','a model dictionary keyed by the documented identity; inventory multiset and every dataset compared, replaced entries hold the last grid','years 1969-2068, integer levels'),
'C03':('written: nine projection families, both construction modes, both hemispheres, any centre; read: reference navigation blocks of the fourteen projection names in either byte order','closed spherical formulas (not PROJ) for every cell, and the coordinates given by the caller','25 m, rotation angle 0, sensible distance from the tangent point'),
'C04':('random soundings: sparse times and stations, replaced and unordered entries, missing values, pressure or height as vertical coordinate','model of what was added, compared bit for bit in single precision','levels of one sounding distinct'),
'C05':('random surface reports, as C04','as C04, priorities and station data included','ASCII station text'),
'C06':('files of every kind, empty to several records, sized to land on record boundaries','a strict parser that claims every word of the file exactly once (label, keys, headers, parts, data blocks, pointers, free word, padding) and checks lengths against the content','-'),
'C07':('seven histories per content: repeated writes, re-adds, other insertion orders, write-add-write, caller objects scrambled after each call; VGF elements the same','bytes equal to the reference history; arguments compared bytewise before and after','-'),
'C08':('fault list: every invalid argument kind of every add call at random positions; the header limit reached at each add (limit lowered by rebinding); unencodable content at each entry; an I/O error at each of open/write/close; the same for VGF','builder state afterwards = state without the failing call (bytes of a later write); existing file on disk unchanged or complete','I/O faults injected through builtins.open in a scratch folder'),
'C09':('grids packed by an independent bit packer: 1-31 bits, random codes including all ones, GRIB / DEC / difference / none, header lengths 2-6, missing flags','the packing formula in double precision','single-precision tolerance'),
'C10':('each file in both byte orders','answers identical (canonical form)','text stays text'),
'C11':('each file twice: compact, and with unused headers, stale keys and empty cells anywhere','answers identical','-'),
'C12':('10 queries per file: 1-4 filters in every documented spelling (scalar, list, tuple, set, array, any case), first/last, absent values, boxes with stations on the edges','a filter written over the model entries; order; KeyError where documented','array-like = list, tuple, set, 1-d array'),
'C13':('8 requests per file around, on and between reports','minimum over the model of each selected station','any of equally near reports'),
'C14':('slots with 0-4 regular and special reports, odd separators, bad times, month and year ends','each stored report returned once, in order, word for word, with the moment nearest the slot time','ids do not occur inside reports'),
'C15':('1-44 parameters of 1-32 bits, any start bit, scales and offsets of either sign','big-integer bit extraction','single-precision rounding'),
'C16':('random unmerged soundings over the twelve parts and three text parts','independent merge after the GEMPAK documentation, plus model-free invariants (pressure order, observed levels conserved)','levels in order inside a part'),
'C17':('every formula at physical, extreme and missing inputs; two-level interpolation; profile routines','published formulas; interpolation laws (end points, linearity in log p, shorter way round, no overwriting, both-sided filling)','relative 1e-9'),
'C18':('collections of 1-12 elements, edits before and after writing','model of documented content (defaults, then changes)','finite coordinates'),
'C19':('records of 24 kinds and all versions from an independent writer','every stored field','vgstruct.h layouts'),
'C20':('record sequences including deleted, unsupported, over-long and empty records','the elements of each record alone','-'),
'C21':('all accessors of random files','recomputation from the element list; JSON parsed back','-'),
'C22':('constructor calls and setter histories, admissible or not','documented ranges; bytes of encode() equal to a reference encoder; rejected change leaves bytes','undocumented corner (marker 0) not tried'),
'C23':('truncation at every kind of boundary, single words and bytes corrupted, foreign files','truncation: each entry as in the intact file, or an error; everything: ends within step and memory budget; foreign: refused','corruption decides termination only'),
'C24':('interleaved queries on several readers, failing queries, results overwritten','answer of a fresh reader','objects held by the reader are shared by design'),
'C25':('one data block damaged (length, pointer, content)','all other entries as in the intact file','entries a query cannot tell apart are not compared'),
'C26':('every name of every code table in every place it can be used; every number of every translated field','frozen tables','names added later not judged'),
'C27':('read/write operations of every class through str/Path/relative paths over absent, longer and shorter files, successful and failing','audit events, open descriptors, directory listings and process state recorded around each call','files opened by the interpreter itself (imports, caches of libraries) are excluded'),
'C28':('random operation sequences on the buffer, structure, set and output stream','byte-string, struct-format, ordered-list and word-file models compared after every step','sizes not negative'),
'C30':('files of the independent writers in every layout, rebuilt from what the reader returns','the reader results of the first file','custom vertical coordinates and raw text cannot be written'),
'C31':('random content of every builder with all arguments respelled','byte identity of the two files','arrays keep their precision'),
'C32':('files with undecodable grids, parts, records, projections, rotations, sources, and files with none','errors, log records and warnings recorded around each call against what the independent writer put in; other entries as in the same file without it','texts of the announcements are not examined'),
'C33':('24 read/query and build/write jobs per case, replayed in three interpreter processes with other hash seeds, zones, locales, clocks, options, settings, names and orders','the results of the reference process, compared exactly','only C and UTF-8 locales are installed; the clock is moved by replacing what the package imports'),
'C29':('2-5 jobs in threads preempted at random lines of the package (`sys.monitoring` LINE events)','the result of each job alone','readers and builders are not shared between threads'),
}
props=[json.loads(l) for l in (V/'properties.jsonl').read_text().splitlines()]
out=head
import importlib,sys
sys.path[:0]=['/verif','/repo/src']
for p in props:
    i=p['id']; m=importlib.import_module(f'vt.checks.{i.lower()}')
    w,o,b=P[i]
    out+=f'**{i} {p["title"]}** ({m.LEVEL}, {m.QUICK} / {m.THOROUGH} cases)  \nworkload: {w}.  \noracle: {o}.  \nbounds: {b}.\n\n'
import glob
fx=[l.strip() for l in (V/'known_findings.txt').read_text().splitlines() if l.startswith('fixed')]
tail=f'''## Defects found

{len(fx)} genuine defects were repaired by `fix:` commits in /repo; `known_findings.txt` names each with its commit.
One is recorded only: SIGMET elements show the area where the status code belongs (C19, `sigmet-status-is-area`);
the existing tests demand the wrong value.

Looked at and left alone (no property claims them, or they need contrived input): UTM/TM navigation is not
implemented; METAR text of ship and climate files is not interpreted; parameter names given in different case are
not recognised as duplicates; VGF group types above 255 are
accepted by the attribute and refused when encoding; the stroke of a special line keeps its value when its type
changes to or from a kink line; `SpecialText.text` shows the terminating NUL; grids without a first time
raise instead of being read; negative grid levels are
shown as None; values of masked arrays are written without regard to the mask; a projection whose `lat_0` is printed in
scientific notation is not understood for LEA and GNO; station ids beyond eight and states beyond four characters are cut.

## False alarms met and what was done

* C03: cylindrical grids given from east to west are outside GEMPAK's convention: not generated.
* C12: `first`/`last` refer to the whole file; the first reading (among entries left by other filters) was wrong.
* C14: ids occurring inside a report, and times that belong to another day equally far away, are ambiguous: the
  generator avoids the former and accepts the nearest moment for the latter.
* C16: below-ground mandatory levels may repeat (GEMPAK does so): the order invariant starts at the surface.
* C20: a header with unknown codes ends the file, as in cvgrdhdr.c: the property says so.
* C22: marker code 0 is documented both ways: not tried.
* C23: a corrupted value may be a legitimate other value: only termination is decided for corruption.
* C25: entries with the same keys as the damaged one are not compared.

'''
rows=['| planted bug | caught by | needs |','|---|---|---|']
for f in sorted((V/'seeded').glob('*/meta.json')):
    m=json.loads(f.read_text())
    rows.append(f"| {f.parent.name} | {m['property']} | {m['needs']} |")
tail2=(V/'tools/design_tail.md').read_text().replace('SEEDTABLE','\n'.join(rows)).replace('holds 61',f'holds {len(rows)-2}')
(V/'DESIGN.md').write_text(out+tail+tail2)
