import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
GC='textseg/grapheme_clusters.go'; ST='textseg/internal/machine/state.go'
PT='textseg/internal/charprops/property_table.go'; RAW='textseg/internal/charprops/property_table_raw.go'; PR='textseg/internal/charprops/properties.go'
GT='textseg/internal/charprops/gentable/generate.go'; UP='textseg/internal/charprops/ucdparse/ucd_scan.go'; TD='textseg/internal/charprops/ucdparse/testdata_scan.go'; GEN='textseg/internal/charprops/generate.go'
A15='autoversion/textseg/unicode15.go';A17='autoversion/textseg/unicode17.go';AV='autoversion/textseg/version_agnostic.go'
p('C01','Tokens are exactly the UAX #29 extended grapheme clusters',
 'For every valid UTF-8 text, calling the grapheme cluster scanner repeatedly at end of input yields exactly the extended grapheme clusters that Unicode 17.0 UAX #29 rules GB1-GB999 define for that text (CR LF, controls, Hangul syllables, Extend/ZWJ, SpacingMark, Prepend, Indic conjuncts, emoji ZWJ sequences, flags). No boundary is missing, none is extra.',
 ['inputs'],'every valid UTF-8 text',
 'The tests replay the 766 sample lines of GraphemeBreakTest.txt, nearly all at most 3-4 characters with one representative per class; combinations of classes, orders and representatives outside that list are never tried.',
 [GC,ST,PT,RAW],[('rule cascade and look-behind state','machine.State.Transition / nextState'),('scan loop','textseg.ScanGraphemeClusters'),('property tables','charprops.lookupIndices / lookupProps')],['textseg.ScanGraphemeClusters(data, true)'])
p('C02','Boundary decisions stay right however long the context or the cluster',
 'The boundary detector, fed any sequence of characters of any length, reports a boundary between two consecutive characters exactly when UAX #29 applied to the whole sequence does, whether or not boundaries occurred before. There is no limit on the length of a cluster: a cluster of any number of characters or bytes comes back whole.',
 ['inputs','histories'],'every finite history of characters, every reachable detector state, every next character; clusters of any byte length',
 'Test lines hold a few characters and always restart at each boundary; no test has a cluster longer than a few dozen bytes or keeps one detector running across boundaries.',
 [ST,GC],[('finite summary of the unbounded look-behind','machine.State, nextState'),('cluster length bookkeeping','count/remain in ScanGraphemeClusters')],['machine.Begin / State.Transition','textseg.ScanGraphemeClusters'],
 [dict(name='State',meaning='summary of all characters before the current one',where='textseg/internal/machine/state.go')])
p('C03','Every code point is classified as Unicode 17.0 says',
 'For each of the 1,112,064 Unicode scalar values, the Grapheme_Cluster_Break / Extended_Pictographic class and the Indic_Conjunct_Break value that segmentation uses are those of the Unicode 17.0 Character Database. Code points the database does not list have no class at all.',
 ['inputs'],'every Unicode scalar value, listed or not, whatever follows it in the buffer',
 'The table tests look only at code points that the data files list for the property under test (about 1.2 percent of all), one property at a time, with nothing behind them in the buffer; the other 1.09 million code points and the cross-property half of each entry are never looked up.',
 [RAW,PT,PR],[('three-level lookup trie','charprops.LookupFirstChar, lookupIndices, lookupProps')],['charprops.LookupFirstChar','textseg.ScanGraphemeClusters'])
p('C04','Scanning is lossless and always advances',
 'For every byte sequence, valid UTF-8 or not, scanning non-empty input at end of input consumes at least one and at most all of its bytes, and the token is exactly the consumed bytes. Hence the tokens, concatenated, reproduce the input; empty input yields no token.',
 ['inputs'],'every byte sequence, both values of the end-of-input flag',
 'Tests check token contents only for the sample lines, all valid UTF-8, plus four malformed inputs.',
 [GC,PT],[('count is advanced by the decoded length, token is data[:count]','textseg.ScanGraphemeClusters')],['advance and token results of textseg.ScanGraphemeClusters'])
p('C05','Tokens do not depend on how the input is split into reads',
 'If the scanner returns a token for a buffer when more input may follow, it returns that same token for every continuation of the buffer, ended or not. Hence any way of delivering the same bytes in pieces, down to one at a time, gives the same tokens as delivering them at once.',
 ['inputs','schedules'],'every byte sequence (malformed ones included), every prefix of it, every sequence of partial deliveries',
 'The partial-delivery test uses one schedule (one byte per read) on the valid sample lines; other split points and malformed input are never delivered in pieces.',
 [GC,PT],[('incomplete sequence / undecided boundary asks for more data','textseg.ScanGraphemeClusters, charprops.LookupFirstChar')],['textseg.ScanGraphemeClusters(prefix, false) against ScanGraphemeClusters(whole, ...)'])
p('C06','Each malformed byte is its own cluster and isolates its neighbours',
 'In any input, a byte that is not part of a structurally complete UTF-8 sequence (stray continuation byte, impossible lead byte, lead byte whose continuation bytes are missing or wrong, truncated sequence at the end) is reported as a cluster of exactly that one byte and is never merged into another cluster. The text before it and the text after it are segmented as if each stood alone.',
 ['inputs'],'every byte sequence with malformed bytes at any position',
 'Four fixed malformed inputs are tested, none with malformed bytes between multi-character clusters at end of input.',
 [GC,PT],[('Error properties end the cluster; first malformed byte consumed alone','textseg.ScanGraphemeClusters'),('structural UTF-8 check','charprops.LookupFirstChar')],['textseg.ScanGraphemeClusters'])
p('C07','No input makes scanning panic, loop or fail',
 'For every byte sequence, including overlong, surrogate, out-of-range and truncated UTF-8, and either value of the end-of-input flag, the scanner returns normally with a nil error. It never reads outside the buffer it is given, and the number of loop steps is bounded by the length of the buffer.',
 ['inputs'],'every byte sequence, both flag values',
 'Table index arithmetic depends on up to four input bytes; tests feed valid UTF-8 and four malformed inputs, so indices reached by overlong, surrogate and out-of-range sequences are never computed.',
 [GC,PT,RAW,ST],[('length checks before each access; tables cover every index','charprops.LookupFirstChar'),('all states handled','machine.State.nextState')],['textseg.ScanGraphemeClusters'])
p('C08','Scanning is pure: no state, no writes, tokens alias the input',
 'The result of a call depends only on the bytes given and the end-of-input flag: not on earlier calls, on concurrent calls, or on bytes in the backing array beyond the buffer. The scanner never modifies the buffer, and a returned token is the leading part of the caller\'s own buffer, not a copy.',
 ['inputs','histories','schedules'],'every buffer, every history of earlier calls, concurrent callers',
 'Tests call the scanner on fresh buffers from one goroutine and compare only token contents.',
 [GC,PT,ST],[('no package-level mutable state; slices of data only','textseg.ScanGraphemeClusters')],['textseg.ScanGraphemeClusters'])
p('C09','A cluster is delivered as soon as it is decided',
 'When more input may follow, the scanner asks for more only if the buffer does not yet settle the end of the first cluster: as soon as the buffer holds the complete character (or the certainly malformed byte) after the cluster, the cluster is returned. So a reader of an interactive stream never waits for more than the one following character.',
 ['inputs','schedules'],'every buffer of every byte content with end-of-input false',
 'Tests only compare the final token lists, which come out the same when tokens are delayed until end of input; two inputs check that more data is requested.',
 [GC,PT],[('decision per following character','textseg.ScanGraphemeClusters'),('malformed sequences recognised before they are complete','charprops.LookupFirstChar')],['textseg.ScanGraphemeClusters(data, false)'])
p('C10','Works as the split function of bufio.Scanner over any reader',
 'A bufio.Scanner using the grapheme cluster split function over a reader that delivers the bytes in pieces of any sizes, with or without empty reads, produces the same tokens as segmenting the whole input at once, and ends without error, panic or stall, as long as the scanner\'s buffer has room for each cluster and the character after it and the reader makes progress.',
 ['inputs','schedules'],'every input and every sequence of read sizes',
 'The tests run bufio.Scanner over two readers (everything at once, one byte per read) on the valid sample lines.',
 [GC],[('bufio.SplitFunc contract','textseg.ScanGraphemeClusters')],['bufio.Scanner.Scan / Bytes / Err'])
p('C11','Character decoding tells complete, incomplete and malformed input apart',
 'For every buffer, decoding its first character reports the length implied by a complete structurally well-formed UTF-8 sequence, or "more bytes needed" exactly when the whole buffer is a proper prefix of such a sequence, or one malformed byte exactly when no continuation of the buffer can complete it. No complete character is ever given the properties reserved for malformed input, and bytes after the first character have no influence.',
 ['inputs'],'every buffer of bytes',
 'Eight fixed buffers are tested, plus listed code points in valid form.',
 [PT],[('lead byte classification and continuation check','charprops.LookupFirstChar')],['charprops.LookupFirstChar'])
p('C12','Every token stands alone and boundaries restart the segmentation',
 'For every byte sequence, scanning a returned token by itself at end of input gives back the same single token, and the tokens after any reported boundary are the tokens of the remaining bytes taken as a text of their own. For valid text every boundary reported this way also is a boundary of the whole text under UAX #29, so restarting at a boundary loses no context that matters.',
 ['inputs'],'every byte sequence and every boundary reported in it',
 'Tests never rescan a token or a suffix, and compare against fixed answers only.',
 [GC,ST],[('state is rebuilt from the first character of each cluster','machine.Begin')],['textseg.ScanGraphemeClusters'])
p('C13','Character properties survive packing and naming',
 'Packing any class (break class or emoji class) together with any conjunct value into one property value and reading both back returns the same two values, and no such combination equals the malformed-input marker. Every break class, emoji class and conjunct value is found again under its own Unicode name, different values have different names, and unknown names give no property.',
 ['inputs'],'every pair of property values, every name',
 'The lookup functions are used by tests on both sides of each comparison, so an error in a name or a packing that is consistent goes unnoticed; names outside the data files are never tried.',
 [PR],[('nybble packing','charprops.MakeCharProperties / GCBProperty / InCBProperty'),('name tables','LookupGCBProperty, LookupEmojiProperty, LookupInCBProperty, String')],['charprops package API'])
p('C14','The table builder preserves any property assignment',
 'For any set of (code point, property) assignments, the compacted lookup tables that the generator builds give back, for every scalar value, exactly the properties assigned to it (break/emoji class and conjunct value combined), and none for code points that were not assigned. This holds for any number and spread of assigned blocks that the table format can represent, in data that assigns properties to the ASCII controls as every Unicode version does; otherwise generation fails instead of producing a wrong table.',
 ['inputs'],'every property assignment and every scalar value looked up',
 'No test covers the builder at all; only its checked-in output for one Unicode version is tested, and only at listed code points.',
 [GT,GEN],[('trie construction','treeInProgress.Set / BitwiseOr / ensureProps'),('block de-duplication','treeInProgress.Compact / buildCompactedBlocks')],['gentable.BuildRawPropertyTree'])
p('C15','Regenerating from the bundled Unicode data gives correct tables',
 'Running the generator on the Unicode 17.0 data files in the repository produces tables whose classification of every scalar value is that of the Unicode Character Database, and that agree with the checked-in tables for every scalar value.',
 ['inputs','configurations'],'every scalar value under the regenerated tables',
 'The generator is never run by build or tests.',
 [GT,GEN,UP,PR],[('generator','generate.go, gentable.BuildRawPropertyTree'),('data files','textseg/internal/charprops/ucd')],['go generate output, looked up through charprops.LookupFirstChar'])
p('C16','The Unicode data parser reads every well-formed line exactly',
 'For any file in UCD format, the parser yields one entry per data line, in order: the exact code point range (end inclusive in the file, exclusive in the entry, single code points being ranges of one) and the exact trimmed fields, whatever hex digits, spacing, comments or blank lines are used. Entries stay as they are when reading goes on. A malformed code point, and a line too long to be held, is reported as an error, not as a wrong range, and the end of the file is reported as such.',
 ['inputs'],'every line of a UCD file: all hex values, widths, spacing, field contents and comments',
 'One four-line example file is parsed.',
 [UP],[('range and field splitting','ucdparse.Scanner.NextEntry, Fields.Strings, Fields.FirstString')],['ucdparse.Scanner'])
p('C17','The conformance-data parser loses no character and no break',
 'For any line of the break test format, the parsed input is the UTF-8 encoding of exactly the listed code points in order, the expected segments concatenate to that input, and segments divide exactly at the break marks. Comments and blank lines produce nothing, and an invalid code point is reported as an error.',
 ['inputs'],'every test-data line: any number of code points, any pattern of break and no-break marks',
 'The conformance tests rely on this parser as their oracle, so a mark or character it drops makes those tests weaker or wrong without failing; nothing tests it.',
 [TD],[('splitting at break marks','ucdparse.TestDataScanner.NextEntry')],['ucdparse.TestDataScanner'])
p('C18','The autoversion module always matches the Go release\'s Unicode version',
 'For every supported Go release (1.21 up to the newest supported), exactly one Unicode-specific implementation is selected, and its Unicode major version equals that of the release\'s standard library. For unsupported releases the scanner is absent, so that building fails instead of using wrong data.',
 ['configurations'],'every Go minor release',
 'Tests are compiled with the installed Go release only, and check one string that segments the same under all versions.',
 [A15,A17],[('build constraints','//go:build lines in autoversion/textseg'),('declared version','UnicodeMajorVersion')],['autoversion/textseg.UnicodeMajorVersion, build result per Go release'])
p('C19','The autoversion functions behave as the implementations they wrap',
 'For every input, each function of the autoversion package returns what the corresponding function of the Unicode-version-specific package it announces returns: the cluster scanner the one of the selected version, the deprecated helpers the published ones. Tokens, advance and errors are passed through unchanged.',
 ['inputs','configurations'],'every argument to every exported function, under each selectable version',
 'The one test counts seven tokens in one string.',
 [A15,A17,AV],[('delegation','autoversion/textseg functions')],['autoversion/textseg exported functions'])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
