import json
T={
"C01":("grammar-based generation against a reference tree","sources drawn from the documented grammar, built together with the tree they must give; full comparison of names, types, labels, numbers, ranges, options, order and nesting"),
"C02":("token-mutation testing against a reference recogniser","token edits of valid sources (including every deletion of a token of each source) judged by an independent recogniser of the documented grammar; cases the documentation leaves open are skipped"),
"C03":("round-trip testing: tree printed back and compared token by token","valid, mutated and random sources; whenever the library accepts, its tree is printed back and must account for every significant token"),
"C04":("generation of comment layouts against a reference attachment model","comments of all forms in all gaps; leading, inline, embedded and body comments compared with the reference, both body-comment settings"),
"C05":("generation of layouts against reference positions","every position of every element and comment compared with the reference's offset, line, column and file name; multi-byte, CRLF, tabs and byte order marks"),
"C06":("fuzzing with random bytes, token soup and mutated sources","no panic, no hang, tree xor error, no nil element; visiting, unordered interpretation and JSON encoding do not panic"),
"C07":("systematic fault injection at every byte of generated sources","for each generated source the reader fails at every offset, with several error kinds and delivery styles; any success is a violation"),
"C08":("systematic truncation at every byte of generated sources","every cut inside a top-level statement or block comment must be rejected; statements that are complete at the cut by the reference are excluded"),
"C09":("metamorphic testing over reader chunkings and repetition","same bytes by many chunkings, with data plus EOF, empty reads, through 12 reader types, after other inputs: identical tree or error"),
"C10":("concurrent random workloads under the race detector, compared with sequential results","8 to 16 goroutines parse, visit and interpret generated sources in a -race build; interleavings are those the scheduler gives"),
"C11":("metamorphic testing over option settings","trees under different file names, debug and body-comment settings compared after erasing only what the option may change"),
"C12":("differential testing of strict and permissive mode, with a strict reference","documented-grammar sources and sources with each permissive extension, in both modes"),
"C13":("metamorphic testing: the same tokens in two random layouts","same structure (or both rejected) whatever the white space and comments"),
"C14":("metamorphic testing: pieces parsed alone, together and by their entry points","elements equal after shifting positions"),
"C15":("generated trees and pruning decisions against a reflection walk","each element and comment visited exactly once by its method, parents first, in order, nothing below a pruned element"),
"C16":("generated trees: unordered view against the tree, element by element","every element in the list of its kind, in order, fields equal, nothing lost; trees with elements that have no place must be refused; the parsed tree stays as it was"),
"C17":("stateful testing of lexer histories against a fresh lexer","random histories of reads, peeks and put-backs; each read must give what a fresh lexer gives that performs only the reads not taken back"),
"C18":("generated lexemes against a reference scanner","token, text and position of each read in each mode; raw texts concatenate to the text"),
"C19":("generated strings against reference values","verbatim kept strings; joined strings are decoded and compared with the concatenated values of the parts"),
"C20":("stray-token injection with a bound on the reported position","one stray token between two tokens of a valid source; error type, file name, position and found text checked"),
"C21":("scaling tests over generated families of sources","allocated bytes at sizes n and 4n may grow by 6.4 at most (4 is linear, 16 quadratic); some texts of 2 to 15 MB must parse without overflowing the stack; running time is not judged"),
"C22":("generated comments, versions and positions against their defining equations","line view, style predicate, raw text, version, position text"),
"C23":("differential testing of the program against the library","the built program on generated files and flags: exit status and output compared with the library's result in JSON"),
"C24":("generated and mutated statements against a reference parser, one entry point at a time","element, error and what is left to be read of each public statement parser"),
"C25":("metamorphic testing: changes of one element against the rest","every field of an element changed, its lists overwritten and made longer; the other elements, other results and later results compared with before"),
}
checks=[]
for i,(t,n) in sorted(T.items()):
    checks.append({"property":i,"quick_cmd":"VERIF_TIER=quick ./run.sh "+i,"thorough_cmd":"VERIF_TIER=thorough ./run.sh "+i,"technique":"property-based testing: "+t,
      "level":"fault_enumeration" if i in("C07","C08") else "exploration",
      "level_note":"Search, not proof: "+n+". Trusts the reference in /verif/harness (independent of the library's code), the Go toolchain and rapid."})
m={"version":1,"setup_cmd":"bash setup.sh","hooks":{"guard":"none","enable":"no hooks: the checks use the public API only","source_commits":[]},"checks":checks,"not_applicable":[],"notes":"See DESIGN.md. Replay a failure with ./run.sh replay FILE."}
open("/verif/MANIFEST.json","w").write(json.dumps(m,indent=1)+"\n")
