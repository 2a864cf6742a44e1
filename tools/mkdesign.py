#!/usr/bin/env python3
# writes DESIGN.md: the head, then per property what decides it, its bounds (from the harnesses) and its seeded bugs
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = json.load(open(V + '/checks.json')); P = [json.loads(l) for l in open(V + '/properties.jsonl')]
T = {
'C01': 'The real acceptor, workers and responder run as controlled threads over the queue model. Oracle: per connection, what kind of request it sent and therefore which reply (or close) it must get; exactly one close per accepted descriptor; no byte of another connection. `statics`/`statics3` (race mode) additionally schedule at each access to a static variable, so that state shared between threads by mistake shows as a wrong reply. Tests have no threads at all.',
'C02': 'Deadlock detection on the same threads with small and real queue capacities: every reachable blocked state within the bound is visited. Slow clients, full queues and late arrivals are choices. The queue model is replayed against the kernel (`conformance`). A wedge needs a specific fill level and schedule, which a test cannot force.',
'C03': 'Vector-clock race detection of every access on every explored schedule (part 1), and the same explorations under AddressSanitizer (part 2), where replies are compared with those of a server that handles one request at a time.',
'C04': 'Every step of starting up fails in turn; every transient failure of `accept`, receives and sends at each position; stale queue contents. Oracle: `serve` reports failure and leaves nothing behind, or all clients are served.',
'C05': 'All ways of cutting a request (bounded cuts, equal pieces, sizes around the read size). Oracle: handler view and response bytes equal those of the uncut request; a `recv` issued after the last byte is a hang.',
'C06': 'What the handler sees is compared with what was sent, for all short bodies over an awkward alphabet, all lengths up to several buffer sizes, all header blocks of a set of lines (NUL bytes included).',
'C07': 'All sequences of request fragments, all one-byte edits of valid requests, degenerate requests of every length, each followed by silence, end of stream and error. Oracle: AddressSanitizer, assertions, step limits, allocation limit, and a parser of responses: anything sent is one well-formed response, else the connection is closed.',
'C08': 'All header blocks of confusable names and values, in buffers of exactly the given size; reference by construction.',
'C09': 'Every body of up to 6 (7) bytes over the alphabet of the encoding, against a reference decoder; every substring is looked up, so that nothing extra can be found.',
'C10': 'All route tables over a set of routes; reference: first match by `regexec` on the same expressions.',
'C11': 'All operation sequences over setting handlers and clean-ups and requesting; reference: a four-field state machine.',
'C12': 'A strict parser of the byte stream: status line, each header on its line exactly once, Content-Length equal to the body, nothing after it. Codes, custom headers (numbers, lengths, cuts, allocation failures) and body sizes are enumerated.',
'C13': 'All ranges over all small bodies; boundary numbers for larger ones; all range texts over an alphabet. Reference: the range arithmetic of the property, on 128-bit integers.',
'C14': 'Each `send` may accept any amount, be interrupted, say "again", or fail: bounded deviations at every call. Oracle: what the client received is the response or a prefix of it followed by a close.',
'C15': 'Answers x requests x every failing call and every amount sent before the client goes away; sequences of requests in one process. Oracle: tracked resources all released, clean-up exactly once with the status of the response, body valid until then.',
'C16': 'Sizes around every buffer and page boundary, every extension variant, every path length, every failing call; replaced files. Oracle: the bytes written to the scratch file.',
'C17': 'Rendering a file is compared with rendering its bytes in memory (whose own correctness is C18–C24), including faults.',
'C18': 'All token sequences against a reference renderer written from the documentation (`harness/tmpl.h`). `rescan` holds the known findings.',
'C19': 'Reference renderer; all bodies of tokens, all neighbourhoods, element kinds and sizes across the growth points.',
'C20': 'Reference renderer plus direct complement checks of both blocks over the same reference and values.',
'C21': 'Filters record calls and clean-ups; the multiset of calls and arguments, the text, and exactly one clean-up per result (after it was copied) are compared with the reference. `parents` chains contexts.',
'C22': 'Files in the scratch directory; reference renderer with includes; descriptors are counted.',
'C23': 'Operation histories on contexts compared with a model after every step; trees of contexts freed exactly once; repeated and interleaved renderings.',
'C24': 'Templates in buffers of exactly their size under AddressSanitizer; halves of directives, every prefix, every length; termination by step limits; reported length compared with the text.',
'C25': 'All operation sequences over colliding keys against `std::map`, everything looked up after each; populations of every size for key families, fully colliding ones included.',
'C26': 'All stores at boundary indices against a map, all maxima; result codes included.',
'C27': 'All operation sequences against `std::vector`; allocation failures as a choice.',
'C28': 'All strings over the alphabet against a reference decoder, in exact buffers.',
'C29': 'All cookie lists over confusable names and values; reference parser; exact buffers.',
'C30': 'All short byte strings and every length, against FNV-1a.',
'C31': 'All haystacks, needles and limits over a small alphabet, in exact blocks.',
'C32': 'All cases of a bounded grammar of contexts and templates are rendered through the binding and through C, byte for byte, with library memory placed low and above 4 GB, filters kept and dropped, contexts released; `/proc/self` figures bound leaks.',
'C33': 'Output calls are captured: one line, one stream, nothing split. `C33t`: all schedules of two (bounded: three) threads at every output call, lock and access to static variables.',
'C34': 'Output calls are captured; the lines that name the request are compared with the one line its particulars determine, for all combinations of headers, outcomes and sizes and all sequences of answered and rejected requests. `C34t`: all schedules (bounded deviations) of two and three requests on 1-3 workers, every output call a scheduling point.',
'C35': 'The two parsing functions on buffers of exactly the given size and a terminator under AddressSanitizer: prefixes, sequences of pieces, lengths and every failing allocation; compared with what the bytes say.',
'C36': 'Real files in the scratch directory (sparse ones beyond 4 GB); all sequences of file operations with both queries after each against a model of two files; each system call failing.',
}
out = open(V + '/tools/design_head.md').read() + '\n## Per property\n'
seeds = {}
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m)); seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d.get('needs', '')))
for p in P:
    i = p['id']; c = C.get(i)
    out += '\n### %s — %s\n\n%s\n\n' % (i, p['title'], T[i])
    if c and 'parts' in c:
        for part in c['parts']:
            for s in part['src']:
                src = open(V + '/harness/' + s).read()
                for n, a, b, t in re.findall(r'\{"(\w+)", ?\w+, ?(\d+), ?(\d+), ?"([^"]*)"', src):
                    out += '* `%s` (%s): %s\n' % (n, part['mode'], t)
    else: out += '* `harness/c32/drive.py`: see its listing of families; quick and thorough bounds are in the evidence file\n'
    if i in seeds: out += '\nSeeded bugs: ' + '; '.join('`%s` (needs %s)' % x for x in seeds[i]) + '\n'
out += open(V + '/tools/design_tail.md').read()
open(V + '/DESIGN.md', 'w').write(out)
