#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is edited here)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
M="iris-mpc/src/"
HOOK="names of crate-private traits (guarded re-exports)"
p("P01","The membership answer equals the plaintext decision",
  "For every query code and mask, every database of codes and masks and every chunk size, each of the three parties running the membership query of any of the four protocols obtains the same answer, and that answer is the plaintext one: some database entry differs from the query, on the positions both masks allow, in fewer than floor(0.34 times the number of such positions) positions. A database entry whose combined mask allows fewer than 70 percent of all positions makes the query fail with an error at every party.",
  ["inputs","configurations"],"all databases (size 1 up to several chunks), match positions, distances around the threshold, mask weights around the limit, chunk sizes, the four protocols and the ring widths they accept",
  "The full test runs one random database of a few entries per protocol with one chunk size and distances far away from the threshold; for one protocol the full run is not among the reliably run tests at all.",
  [M+"iris/protocol.rs",M+"traits/mpc_trait.rs",M+"aby3/share.rs",M+"swift3/share.rs",M+"spdzwise/share.rs","plain-reference/src/lib.rs"],
  [("chunked query loop, triple count, OR reduction, opening",M+"iris/protocol.rs iris_in_db"),("threshold offset before sign extraction",M+"iris/protocol.rs get_cmp_diff"),("masked sums",M+"*/vecshare.rs filter_reduce_add_twice"),("mask weight limit",M+"iris/protocol.rs combine_masks")],
  observe=["answer of the query at each of the three parties"],hook=HOOK)
p("P02","Arithmetic on shared values computes modulo 2^k",
  "Any sequence of the arithmetic operations of a protocol (dealer sharing, party input, addition, subtraction, multiplication, operations with public constants, dot products, batches of dot products, opening one or many values) yields at all three parties the value that the same sequence computes on plain integers modulo 2^k. After every step the three parties' shares are consistent with each other, including the replicated parts and, where the protocol has them, the authentication tags.",
  ["programs","inputs"],"all programs up to a depth over an alphabet of operations and boundary values, for the four protocols and all ring widths, signed and unsigned; all pairs of 8-bit values for the binary operations",
  "The tests run each operation once per width on one random value pair; nothing composes operations and nothing looks at the shares.",
  [M+"aby3/protocol.rs",M+"aby3_mal/protocol.rs",M+"swift3/protocol.rs",M+"spdzwise/protocol.rs",M+"aby3/share.rs",M+"swift3/share.rs",M+"spdzwise/share.rs"],
  [("local linear operations on shares",M+"*/share.rs"),("resharing after multiplication",M+"*/protocol.rs mul, dot, dot_many"),("constant handling per party",M+"*/protocol.rs add_const, sub_const, mul_const")],
  observe=["the three parties' shares and opened values after each step"],hook=HOOK)
p("P03","Sign extraction and OR over shared values are exact",
  "For every shared value and every batch of shared values, the extracted shared bit opens to the most significant bit of that value, one bit per batch element in order, and so do the single-value and the batch form alike. The OR reduction of any non-empty sequence of shared bits, with any positive chunk size, opens to true exactly if one of them is true, and the binary OR of two shared bits opens to their OR.",
  ["inputs","configurations"],"all 8-bit values and boundary values of the wider rings, all sharings randomised by enumeration of boundary share components, all batch lengths up to and across the 128-lane packing boundaries, all bit vectors up to a length and every single-bit vector at longer lengths, all chunk sizes in a set",
  "The tests extract the sign of a handful of random values and reduce one random vector; the carry chain, packing boundaries and tail chunks are sampled at best.",
  [M+"aby3/protocol.rs",M+"aby3_mal/protocol.rs",M+"swift3/protocol.rs",M+"spdzwise/protocol.rs",M+"traits/binary_trait.rs",M+"aby3/utils.rs"],
  [("arithmetic to binary conversion, adders",M+"traits/binary_trait.rs"),("lane transposition and packing",M+"aby3/utils.rs"),("OR tree",M+"*/protocol.rs reduce_binary_or")],
  observe=["opened bits"],hook=HOOK)
p("P04","Results do not depend on message timing and nobody deadlocks",
  "However the three parties are scheduled against each other and however messages are delayed in the bounded per-link queues, every protocol operation and the whole membership query come to an end at all three parties. The result at each party is the same on every such schedule.",
  ["schedules"],"all schedules of the three parties' network operations, up to merging of equal states, for each operation of the four protocols and for the whole query on a small database, for link capacities from 2 messages upward; one schedule per priority order at other widths and at lengths up to several hundred",
  "Tests run under one scheduler on unbounded in-memory queues; they see a handful of the interleavings and never a full link.",
  [M+"traits/network_trait.rs",M+"aby3/protocol.rs",M+"aby3_mal/protocol.rs",M+"swift3/protocol.rs",M+"spdzwise/protocol.rs",M+"aby3/utils.rs",M+"iris/protocol.rs"],
  [("per-link FIFO and send-before-receive order",M+"aby3/utils.rs, "+M+"*/protocol.rs"),("point-to-point order of jmp messages",M+"swift3/protocol.rs jmp_send, jmp_receive")],
  observe=["termination and result of each party"],hook=HOOK)
p("P05","One corrupted party cannot change what honest parties accept",
  "In the three maliciously secure protocols, whatever a single party does to one of its messages (change, replace by a fixed pattern, repeat), or if it draws words of its randomness differently and goes on consistently, also if it chooses the deviation knowing every random value that is fixed before it has to commit itself, an honest party that completes a run with verification and opens results obtains exactly the results of the undisturbed run, or it reports an error. This covers setup, input, multiplication, dot products, sign extraction, OR reduction, verification and opening.",
  ["fault_sequences"],"every message of a run x every corrupted sender x every bit position or a stride of positions x several alteration kinds; all pairs of alterations by the same party on short runs; every word a party draws x several differences, followed consistently; errors built to cancel under every challenge the party can foresee",
  "No test contains a misbehaving party.",
  [M+"aby3_mal/protocol.rs",M+"swift3/protocol.rs",M+"spdzwise/protocol.rs",M+"dzkp/and_proof.rs",M+"dzkp/mul_proof.rs",M+"dzkp/dot_proof.rs",M+"spdzwise/triples.rs"],
  [("duplicate sending and hash comparison",M+"*/protocol.rs jmp_*"),("tag check against the shared key",M+"spdzwise/protocol.rs verify_macs"),("distributed zero-knowledge proof of resharing",M+"swift3/protocol.rs verify, "+M+"dzkp/*.rs"),("triple sacrifice and cut-and-choose",M+"aby3_mal/protocol.rs, "+M+"spdzwise/triples.rs")],
  observe=["opened results or errors at the honest parties"],hook=HOOK)
p("P06","A vanished or garbling peer yields an error, not a panic or hang",
  "If a party stops at any point of a run, or one of its messages arrives empty, truncated or with extra bytes, the other parties return an error or a correct result: they do not panic, they do not wait forever once the connection is closed, and they do not accept a wrong result because of the loss. A party that reports an error after the fault does so through the result of the call that failed.",
  ["crash_points","fault_sequences"],"every network operation of each party as the crash point, and every message x {empty, truncated, extended}, for the four protocols and all operations up to the whole query",
  "No test stops a party or shortens a message.",
  [M+"aby3/utils.rs",M+"aby3/protocol.rs",M+"aby3_mal/protocol.rs",M+"swift3/protocol.rs",M+"spdzwise/protocol.rs",M+"iris/protocol.rs",M+"types/ring_element.rs",M+"types/bit.rs"],
  [("length checks when decoding messages",M+"aby3/utils.rs, "+M+"types/*.rs"),("error propagation",M+"error.rs")],
  observe=["how each surviving party's call ends"],hook=HOOK)
p("P07","A single party's view is independent of the secrets",
  "In every protocol, what one party receives during input sharing, multiplication, dot products, sign extraction, OR reduction and verification, together with its own shares and its own randomness, has the same distribution whatever the secret inputs are. Only opening reveals a value, and it reveals nothing beyond that value (in the authenticated protocol: the opened element of the wider ring).",
  ["inputs","programs"],"all pairs of a reference secret and secrets with the same result over a boundary alphabet, per scenario, width and observer: a choice of the random draws the observing party does not know (generators are ideal functions) under which the views are identical; all values of single draws over the 8-bit ring",
  "A unit test can at best look at one view; equality of distributions is a statement about all random choices and all secrets.",
  [M+"aby3/protocol.rs",M+"aby3_mal/protocol.rs",M+"swift3/protocol.rs",M+"spdzwise/protocol.rs",M+"aby3/random/prf.rs",M+"swift3/random/prf.rs"],
  [("zero sharings mask every re-sharing message",M+"aby3/random/prf.rs"),("pairwise keys",M+"swift3/random/prf.rs")],
  observe=["messages received by each party"],hook=HOOK)
p("P08","Dealt sharings reconstruct and each single share hides the value",
  "The shares that a dealer produces for a value reconstruct to exactly that value, agree on their common parts and, in the authenticated protocol, carry a tag that matches the given key. The share given to any one party takes every possible content equally often over the dealer's randomness, whatever the value.",
  ["inputs"],"all values and all dealer draws of the 8-bit ring (single party marginals), boundary values and draws at wider widths, four protocols",
  "The share test reconstructs one random value per width.",
  [M+"aby3/protocol.rs",M+"aby3_mal/protocol.rs",M+"swift3/protocol.rs",M+"spdzwise/protocol.rs",M+"types/sharable.rs"],
  [("dealer",M+"*/protocol.rs share"),("widening for tags",M+"types/sharable.rs")],observe=["dealt shares"],hook=HOOK)
p("P09","A session answers every query correctly, whatever came before",
  "A session of the three parties stays usable: any sequence of setup, key renewal (with no product waiting for verification), inputs, arithmetic, sign extraction, OR reductions, verifications, membership queries and failed (rejected) calls gives, at each step, the same results as the same step on a fresh session. Verification succeeds at every point of every honest history, including several times in a row and with nothing to verify.",
  ["histories"],"all sequences up to a depth over the alphabet of session operations for the four protocols, with triple pools, verification queues, key renewal and rejected calls in between",
  "Every test uses a fresh session for one operation, or one fixed sequence.",
  [M+"iris/protocol.rs",M+"aby3_mal/protocol.rs",M+"swift3/protocol.rs",M+"spdzwise/protocol.rs",M+"spdzwise/triples.rs"],
  [("verification queues are drained",M+"*/protocol.rs verify"),("triple buffers",M+"spdzwise/triples.rs"),("PRF state advances in step",M+"*/random/prf.rs")],
  state=[("queues of gates and triples","what the next verification has to check",M+"swift3/protocol.rs, "+M+"aby3_mal/protocol.rs, "+M+"spdzwise/triples.rs")],
  observe=["results and errors of each step"],hook=HOOK)
p("P10","Honest batches verify at every size, a wrong batch does not",
  "In the maliciously secure protocols, for every number of multiplications, AND gates and dot products since the last verification, of any mixture and order, verification among honest parties succeeds, whatever random values are drawn, and leaves the results correct. If the product held in a batch is wrong in any single position because one party deviated in that multiplication, verification or the call itself fails at an honest party.",
  ["inputs","configurations","fault_sequences"],"all batch sizes in ranges around the powers of two and padding boundaries used by the checks, all mixtures of up to three kinds, each position of the wrong product",
  "Tests verify one or two batch sizes, all honest.",
  [M+"swift3/protocol.rs",M+"aby3_mal/protocol.rs",M+"spdzwise/protocol.rs",M+"spdzwise/triples.rs",M+"dzkp/and_proof.rs",M+"dzkp/mul_proof.rs",M+"dzkp/dot_proof.rs"],
  [("proof of a batch with padding to a square shape",M+"dzkp/*.rs"),("bucket checks on triples",M+"aby3_mal/protocol.rs, "+M+"spdzwise/protocol.rs")],observe=["result of verification at each party"],hook=HOOK)
p("P11","Wire encodings round-trip and wrong lengths are rejected",
  "Encoding any ring element or bit, or any sequence of them, into a message and decoding it gives back the same values; every element takes a fixed width (k/8 bytes, one byte for a bit), whichever way the message is built. Decoding a message whose length does not fit the number of values expected, or whose bytes encode no value, gives an error and never a panic or a silently different sequence.",
  ["inputs"],"all 8-bit and 16-bit values and boundary values at wider widths, all sequence lengths up to a bound, all message lengths up to a bound against all expected counts",
  "The conversion tests round-trip one random vector per type and never a malformed message.",
  [M+"aby3/utils.rs",M+"types/int_ring.rs",M+"types/ring_element.rs",M+"types/bit.rs"],
  [("element encoding",M+"types/ring_element.rs, "+M+"types/int_ring.rs"),("one byte per bit, 0 or 1",M+"types/bit.rs"),("vector framing",M+"aby3/utils.rs")],observe=["bytes and decoded values"],hook="guarded re-exports of the conversion helpers")
p("P12","Ring elements and bits obey arithmetic modulo 2^k",
  "The operators on ring elements and bits (addition, subtraction, negation, multiplication, bitwise operations, shifts by less than the width, sign bit, bit access, conversions between widths and to bits, sums, inverses of odd elements of up to 64 bits) agree with integer arithmetic modulo 2^k at every width, in their by-value, by-reference and assigning forms alike. None of them panics on any such value.",
  ["inputs"],"all pairs of 8-bit values, all pairs of bits, all 16-bit values against boundary values, boundary x boundary values at 32, 64 and 128 bits",
  "The type tests cover only the byte conversion of vectors.",
  [M+"types/ring_element.rs",M+"types/int_ring.rs",M+"types/bit.rs",M+"types/sharable.rs"],
  [("wrapping operators",M+"types/ring_element.rs"),("bit arithmetic",M+"types/bit.rs")],observe=["operator results"],hook=HOOK)
p("P13","The proof fields and polynomials obey field algebra",
  "The field of 2^64 elements used by the proofs obeys the field axioms with its reduction polynomial, every nonzero element has the inverse that the code computes, and polynomial addition, multiplication, division with remainder (by a divisor with unit leading coefficient), evaluation and interpolation agree with a naive reference, and two polynomials are equal whatever leading zeros they are stored with. Interpolating any values at the fixed points and evaluating gives the values back, over the field and over the extensions of the integer rings by their irreducible moduli; the constants zero and one are recognised as such and nothing else is.",
  ["inputs"],"all products and inverses of elements from a boundary set and all one- and two-bit elements, all polynomials up to a small degree over a small coefficient set, all point vectors over a small set, for every width",
  "Interpolation and inverses are tested on one random instance.",
  [M+"dzkp/gf2p64.rs",M+"dzkp/polynomial.rs",M+"dzkp/irreducible_polys.rs"],
  [("carry-less product and reduction",M+"dzkp/gf2p64.rs"),("extended Euclid and Lagrange bases",M+"dzkp/polynomial.rs")],observe=["results of field and polynomial operations"],hook="guarded wrappers around crate-private types")
p("P14","A framed channel delivers exactly what was sent, in order",
  "Over a channel, frames and typed messages of any length up to the frame limit of 8 MiB, including the empty one, arrive exactly once, in sending order and unchanged, however the byte stream is cut into reads and writes. When the peer closes, everything sent before the close still arrives, then the end is reported, and a stream cut inside a frame is reported as an error instead of delivering a partial frame. A longer frame is refused by the sender.",
  ["schedules","fault_sequences","inputs"],"all ways to cut the byte stream of up to three frames into reads and writes up to a number of cuts, every truncation point, pending polls at every position",
  "The repository has no test for its transport crate.",
  ["mpc-net/src/channel.rs","mpc-net/src/codecs.rs"],
  [("length-delimited framing","mpc-net/src/channel.rs"),("typed codec","mpc-net/src/codecs.rs")],observe=["frames seen by the receiver"])
p("P15","A managed channel serves queued jobs in order and exactly once",
  "On a managed channel, the sends queued by a user reach the peer in the order they were queued, each receive request gets the next unclaimed message (a request whose result is dropped claims its message like any other), and every job gets exactly one result. Jobs queued before a handle is dropped are still served. Results that nobody waits for neither block nor reorder later jobs, and after the peer closes every outstanding and later receive request ends with an error instead of waiting forever.",
  ["schedules","histories"],"all sequences of queue-send, queue-receive, drop-result and close up to a length on both ends, over all schedules of the two endpoints' reader and writer tasks up to a bound",
  "The repository has no test for the managed channel.",
  ["mpc-net/src/channel.rs"],[("reader and writer tasks with job queues","mpc-net/src/channel.rs manage")],observe=["results of the jobs on both ends"])
p("P16","The mesh connects the right parties, or fails, in any start order",
  "For any consistent configuration and any order in which the parties start, establishing the network gives every party a connection to each other party under that party's configured identity, and what is sent to an identity arrives only there and is received as coming from the sender. A configuration in which the own identity is missing or an identity occurs twice is rejected.",
  ["configurations","schedules"],"all permutations of start order, all assignments of identities and list orders for two to four parties, all pairs of senders and receivers and several channels opened in the same order, any one packet between two parties lost, doubled or late, and all small malformed identity lists",
  "The repository's examples run three parties by hand; no test establishes a network.",
  ["mpc-net/src/lib.rs","mpc-net/src/config.rs",M+"aby3/network.rs",M+"aby3/id.rs"],
  [("server/client roles by identity and identity exchange","mpc-net/src/lib.rs establish"),("configuration check","mpc-net/src/config.rs"),("ring neighbours",M+"aby3/id.rs")],observe=["who receives which message"])
p("P17","The plaintext comparison is the masked relative Hamming distance",
  "Two irises whose masks together allow at least 70 percent of all positions are close exactly if the number of differing code positions among the positions allowed by both masks is below floor(0.34 times the number of allowed positions), independent of the code bits outside the masks, symmetric in the two irises, and of the word layout of the codes. Setting, clearing, flipping, reading, iterating and counting bits of a code all agree on the same position numbering.",
  ["inputs"],"every bit position, distances and mask weights around the thresholds on every word boundary, all pairs of small positions",
  "One test compares the iterator with bit access on one random code.",
  ["plain-reference/src/lib.rs"],[("word-wise bit array","plain-reference/src/lib.rs IrisCodeArray"),("comparison","plain-reference/src/lib.rs is_close")],observe=["comparison result"])
p("P18","Shared randomness is agreed and commitments bind",
  "After the setup, the parties that share a random stream take the same values from it, in step, whatever operations follow; a stream of two parties is never known to the third, each pair has a stream of its own, no word is taken twice, and jointly made sharings of zero cancel. Where the setup commits first, the agreed seeds depend on what each owner contributes, and every change of a setup message is answered with an error by the party that receives it. A commitment is opened only by the committed values and randomness. Joint random values are the same at all parties and depend on every party's contribution.",
  ["inputs","histories","fault_sequences"],"all histories of up to 3 operations (4 in thorough at 16 bits) over an alphabet of 14 to 15 for four protocols and five widths; every bit and length of every setup and coin message; every bit of every contribution; every bit of values, randomness and commitment of openings",
  "Tests use the streams only indirectly and never alter a commitment or opening.",
  [M+"aby3/random/prf.rs",M+"swift3/random/prf.rs",M+"commitment/mod.rs",M+"aby3_mal/protocol.rs",M+"swift3/protocol.rs",M+"spdzwise/protocol.rs"],
  [("pairwise seeds",M+"*/protocol.rs setup_prf"),("commit then open",M+"commitment/mod.rs")],observe=["drawn values, acceptance of openings"],hook="guarded re-export of the commitment type")
p("P19","Invalid calls are rejected with an error and do no harm",
  "A call with vectors, batches or lists of unequal lengths, codes of the wrong size, an unknown party identity, a missing own input, an empty database or OR reduction, a chunk size of zero, a mask that allows too few positions, or a ring too narrow or too wide for the protocol is answered with an error at every party that makes it. It never panics, and the session gives correct answers afterwards, also when one party alone made the mistake. Empty vectors give the natural empty result, and a value given by a party that is not the dealer is ignored.",
  ["inputs","histories"],"all operations x all unequal shapes up to a small size, unknown identities, missing inputs, bad queries, each before, between and after valid calls, by all parties and by one alone, and in pairs; four protocols, widths 8 to 128",
  "No test makes an invalid call.",
  [M+"iris/protocol.rs",M+"aby3/protocol.rs",M+"aby3_mal/protocol.rs",M+"swift3/protocol.rs",M+"spdzwise/protocol.rs",M+"error.rs"],
  [("argument checks at the start of each operation",M+"*/protocol.rs")],observe=["results of the calls"],hook=HOOK)
p("P20","The network transport loses nothing it accepted before shutdown",
  "On the real network transport, every message accepted by a send before the sender shuts its side down is received in full and in order by a peer that stays and receives, whatever its length up to 8 MiB, and a longer message makes the send fail. Receiving from an identity that is not a peer, or sending to it, gives an error.",
  ["histories","inputs"],"message lengths around framing limits, bursts around the queue length, shutdown directly after the last send, all pairs of parties over loopback, any one packet lost, doubled or late",
  "No test uses the real transport.",
  [M+"aby3/network.rs","mpc-net/src/lib.rs","mpc-net/src/channel.rs"],[("writer task behind a bounded queue",M+"aby3/network.rs"),("connection close","mpc-net/src/lib.rs shutdown")],observe=["messages received by the peer"])
p("P21","Sample databases reconstruct, survive a stopped call, and are searched exactly",
  "Every call of the sample-data tools adds as many rows as asked for under consecutive identifiers, each of a new person, and leaves earlier rows unchanged. The shares stored with a row, read as the examples read them, give the plaintext code in the same row, and with SpdzWise carry tags valid under the one key of the database. The same seed gives the same rows, another seed or none gives others. A call that is stopped because it cannot write leaves all of its rows or none and the file usable, and a call for another protocol is refused and changes no row. A search reports a match exactly if a stored code is close to the probe.",
  ["inputs","histories","crash_points"],"all sequences of up to four calls with 0 to 2 rows on one file, every file-size limit in pages at which a write fails (and some for calls with many rows), seeds that differ in any one bit, all pairs of protocols, all databases of up to four rows over five kinds of closeness, the stored shares in the real three-party query",
  "No test runs the tools.",
  [M+"bin/create_sample_data.rs","plain-reference/src/bin/create_sample_data_plain.rs","plain-reference/src/bin/find_match.rs"],
  [("row writer",M+"bin/create_sample_data.rs"),("search","plain-reference/src/bin/find_match.rs")],observe=["database files","search answers"])
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root,"properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x)+"\n")
