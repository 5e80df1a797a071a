import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
DR="src/lr_codegen.rs (generated driver loop)"
p("C01","Parser accepts exactly the grammar's sentences, whatever stream is delivered",
 "For every conflict-free LR(1) grammar the macro yields a compiling parser, and each public entry point succeeds on a stream exactly when the sequence of tokens delivered before end of stream is a sentence derivable from that entry point. This holds for whatever a faulty source delivers: streams that are truncated, or have tokens lost, duplicated, reordered, inserted or corrupted. No delivered stream makes the parser itself panic.",
 ["programs","inputs","fault_sequences"],"all conflict-free LR(1) grammars (nullable chains, several entry points, any declaration order, large tables), all delivered token streams",
 "The tests parse about 35 hand-written correct streams with 11 grammars and never a wrong stream; a wrong lookahead set, first set, state merge or table index shows only for particular grammars and particular prefixes.",
 ["src/first.rs","src/lr1.rs","src/lr_common.rs","src/lower.rs","src/lr_codegen.rs"],
 [("first sets","src/first.rs"),("LR(1) closure, goto and automaton","src/lr1.rs"),("action/goto tables and their array form","src/lr_common.rs, src/lr_codegen.rs"),("entry points","src/lower.rs")],
 ["result of <Entry>::parse(stream)"])
p("C02","Semantic actions run exactly once, in derivation order, on their own operands",
 "A successful parse runs exactly one semantic action per production application of the delivered stream's derivation, bottom-up and left to right, each receiving exactly the values that its right-hand side binds, and returns the value of the entry production's action. When the parse ends early (bad token, premature end, source error, or a panic in the source or in an action), the actions that ran are exactly those the derivation prescribes up to that point.",
 ["programs","inputs","fault_sequences","crash_points"],"all conflict-free grammars with any mix of bound, mutable and unbound symbols and result types, all delivered streams, crash at any callback",
 "Tests only look at the final value of a few successful parses; order, multiplicity and operands of actions on long, failing or crashing streams are never observed.",
 ["src/codegen.rs","src/lr_codegen.rs"],
 [("action functions popping the value stack","src/codegen.rs"),("shift/reduce driver",DR),("value extraction per result type","src/codegen.rs")],
 ["calls made to the user's actions and their arguments","value returned by parse"])
p("C03","A bad token is reported at the first offending item, before anything else",
 "On the first delivered token (or end of stream) that cannot continue any sentence of the entry point, the parse returns a parse error that names exactly that token (or end of input). No semantic action runs and no further item is requested after the offending item has been read. A parse error is never reported while the delivered prefix can still be completed to a sentence.",
 ["programs","inputs","fault_sequences"],"all conflict-free LR(1) grammars, every stream fault at every position",
 "No existing test feeds a single erroneous stream, so neither the position, the name nor the absence of side effects is exercised.",
 ["src/lr1.rs","src/lr_codegen.rs","src/codegen.rs"],
 [("canonical LR(1) lookaheads","src/lr1.rs"),("error exit of the driver",DR),("names of tokens","src/codegen.rs")],
 ["ParseError returned","actions run and items requested after the offending item"])
p("C04","Parse errors list exactly the tokens that could have come next",
 "The expected list of a parse error contains exactly the declared tokens that could legally have followed the accepted prefix, each once, in declaration order and separated by a comma and a space. End of input is never listed, and the list is empty when no token could follow.",
 ["programs","inputs","fault_sequences"],"all conflict-free LR(1) grammars, every stream fault at every position",
 "No test inspects the expected list; an off-by-one in the table or a merged state shows only in particular states.",
 ["src/codegen.rs","src/lr1.rs"],
 [("expected-token strings per state","src/codegen.rs"),("canonical LR(1) lookaheads","src/lr1.rs")],
 ["`expected` of the returned parse error"])
p("C05","A source error is returned unchanged from any point of the stream",
 "If the token source yields an error while what it delivered so far can still be continued, the parse returns a lexer error carrying that very error value, wherever in the stream it occurs (first item, mid-production, or where the stream could have ended). After that error is read no semantic action runs and no further item is requested. A bad token delivered earlier takes precedence, and an error is never turned into end of input or into a parse error.",
 ["inputs","fault_sequences","programs"],"every position of the first source error in every stream, alone or combined with other stream faults",
 "No existing test ever makes the source fail.",
 ["src/lr_codegen.rs"],[("lexer-error exit of the driver",DR)],
 ["ParseError::LexerError returned","actions run and items requested after the error"])
p("C06","The source is read in order with one item of lookahead and never past its end",
 "The parser requests items one at a time and holds at most one item that it has not yet consumed: every action that this lookahead decides runs before the next item is requested. It requests nothing after end of stream, a source error or a bad token, even if the source would deliver more. A caller that lends its source can therefore continue reading exactly after the last requested item, for example to parse the next document of the same stream.",
 ["inputs","fault_sequences","histories"],"all streams and faults, sources that resume after end or after an error or announce a wrong size, several documents on one lent source",
 "Tests use fused iterators over fixed vectors and never observe when or how often the source is polled.",
 ["src/lr_codegen.rs"],[("single lookahead variable of the driver",DR)],
 ["next() calls on the source, interleaved with action calls"])
p("C07","Every token and value is used or dropped exactly once, even across failures",
 "Each token payload delivered by the source and each value returned by an action is either handed to exactly one action (or to the caller as the result) or dropped exactly once. When parse returns or unwinds, on success, parse error, source error, or a panic in the source, in an action or in cloning the error, nothing obtained during it is still held or leaked. Items never requested stay untouched in a lent source.",
 ["crash_points","fault_sequences","inputs"],"crash at any request, action or error clone; every stream fault; every combination of bound and unbound symbols",
 "Tests use plain values whose loss or retention is invisible, and never unwind out of a parse.",
 ["src/lr_codegen.rs","src/codegen.rs"],
 [("value stack owned by the driver",DR),("token values moved onto the value stack","src/codegen.rs"),("operands popped by action functions","src/codegen.rs")],
 ["drops of payloads, values and errors up to the return or unwind of parse"])
p("C08","Parses are isolated: concurrent, nested or crashed parses never interact",
 "A parse behaves (requests, actions with operands, result) exactly as it does alone, no matter which other parses of the same or other grammars and entry points run concurrently on other threads, run nested inside its source or its actions, or completed, failed or crashed before it in the process. This holds for every interleaving, also between requests, actions and error clones, and for the first parses of a process as for later ones.",
 ["schedules","histories","crash_points"],"all interleavings of several parses, nesting at any callback, any earlier history including panics, any clock, entropy, thread or leftover memory contents",
 "Tests run one parse at a time from a fresh state; shared or retained state shows only under particular interleavings or after a crash.",
 ["src/lr_codegen.rs","src/codegen.rs"],
 [("parser state local to one call",DR),("immutable static tables","src/lr_codegen.rs")],
 ["event trace of each parse"])
p("C09","Every parse makes bounded progress and terminates without recursion",
 "For every grammar the macro accepts and every finite stream, the parse returns; the number of actions between two requests is bounded by the work already read, and the total is linear in the stream length. Nesting depth and stream length are limited by heap memory only: streams of 100,000 tokens, arbitrarily deep, parse on a small thread stack. A stalled or slow source or action (also one during which the clock jumps) delays the parse but changes nothing else.",
 ["inputs","programs","fault_sequences"],"all accepted grammars (also those whose shift/reduce conflicts were resolved), all finite streams, small thread stacks, stalls at any request",
 "Tests parse at most 7 tokens with conflict-free grammars; endless reduction or recursion would need conflicting grammars or very long streams.",
 ["src/lr_codegen.rs","src/lr_common.rs","src/lr1.rs"],
 [("iterative driver with explicit stacks",DR),("conflict resolution in favour of shift","src/lr_common.rs")],
 ["parse returns within the step budget"])
p("C10","Expansion is reproducible: same grammar, same parser, in any environment",
 "Expanding a grammar yields the same generated code whatever else the compiler process expanded before or expands concurrently on other threads, including expansions that were rejected by a panic or an error, and a rejected grammar is rejected each time. Separate processes produce identical text, whatever their environment, clock, entropy, or files that other expansions left. The result does not depend on the iteration order of unordered hash containers, except for the order in which generated items appear.",
 ["schedules","histories","configurations","crash_points"],"all interleavings of expansions, all histories of accepted and rejected expansions, all hash orders, entropy values, clocks and environments",
 "Tests expand each grammar once per process with one hash function and one history.",
 ["src/lr1.rs","src/first.rs","src/lr_common.rs","src/codegen.rs","src/collections.rs","src/lower.rs","src/lib.rs"],
 [("state numbering by ordered traversal","src/lr1.rs"),("ordered item sets","src/lr1.rs"),("deterministic hash function","src/collections.rs")],
 ["token stream returned by the macro"],"crate entry callable outside a compiler (cfg parsegen_sim)")
p("C11","Tokens are classified by the first matching pattern and carry their captures",
 "Each delivered token counts as the first declared terminal whose pattern matches it, also when patterns overlap, share a variant, nest, or discriminate on literal payloads that a fault corrupted. Its value, as bound in a production, consists of exactly the captured fields in pattern order; other payload parts are discarded.",
 ["inputs","fault_sequences","programs"],"all declared pattern lists (literals, nested, struct, wildcard, rest patterns, overlapping), every delivered token value including corrupted payloads",
 "Tests use at most one capture per token and one overlapping pair; classification and value extraction are two separately generated functions that can disagree.",
 ["src/codegen.rs","src/ast.rs"],
 [("token classification function","src/codegen.rs"),("token value function","src/codegen.rs"),("pattern parser","src/ast.rs")],
 ["actions and errors observed for a delivered token"])
p("C12","An accepted shift/reduce conflict always resolves to the shift",
 "When the macro accepts a grammar that has shift/reduce conflicts (such as a dangling else), the parser takes the shift at every conflict, on every stream: its result, actions and errors are those of the grammar's LR(1) automaton with shift preferred. Everything else about the parse is as for conflict-free grammars.",
 ["programs","inputs","fault_sequences"],"all accepted grammars with shift/reduce conflicts, all delivered streams including faulty ones",
 "No test has a grammar with a shift/reduce conflict.",
 ["src/lr_common.rs","src/lr1.rs"],
 [("add_shift overriding a reduce","src/lr_common.rs")],
 ["event trace and result of the parse"])
p("C13","Unresolvable conflicts are rejected at every expansion, others never",
 "Expanding a grammar with a reduce/reduce conflict, or a conflict between accepting and reducing, is rejected by a panic; a conflict-free LR(1) grammar is never rejected. The verdict is the same each time, whatever the compiler process expanded or rejected before or expands at the same time on other threads, and in any iteration order of unordered hash containers.",
 ["programs","schedules","histories","configurations"],"all grammars with all entry points productive, all interleavings and histories of accepted and rejected expansions, all hash orders",
 "No test expands a conflicting grammar, and each expands one grammar per invocation in one order; a conflict missed in some states, or a verdict that leaks from an earlier expansion, shows only for particular grammars, histories or orders.",
 ["src/lr_common.rs","src/lr1.rs","src/first.rs","src/lib.rs"],
 [("conflict panics of the table builder","src/lr_common.rs"),("canonical LR(1) states that decide what conflicts","src/lr1.rs")],
 ["whether the macro returns tokens or panics"],"crate entry callable outside a compiler (cfg parsegen_sim)")
p("C14","Malformed definitions are diagnosed at every expansion, sound ones never",
 "A definition that uses a non-terminal or terminal it does not define, declares a terminal, the token enum or the parser state twice, or omits the token enum is rejected, wherever in the definition the flaw is and whether or not the flawed part is reachable. Sound definitions are not rejected. The verdict is the same each time, whatever names earlier or concurrent expansions in the same compiler process defined.",
 ["programs","schedules","histories","configurations"],"all macro inputs with one of the named flaws at any place, all interleavings and histories of accepted and rejected expansions, all hash orders",
 "No test expands a malformed definition, and none expands a second definition in a process that another one could leak names into.",
 ["src/lower.rs","src/lib.rs","src/ast.rs"],
 [("name tables and checks while lowering","src/lower.rs"),("items of the definition collected","src/lib.rs")],
 ["whether the macro returns tokens, returns an error or panics"],"crate entry callable outside a compiler (cfg parsegen_sim)")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s)
    n=x['statement'].count('. ')+1
    if n>3 or len(x['title'])>80: print(x['id'],n,len(x['title']))
