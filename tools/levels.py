NA={}
E="model_checking"
LEVELS={
"P01":("exhaustive enumeration of databases, masks, distances and chunk sizes on the real three-party query",E,"Every database in the stated bounds is queried through the real protocol code of all three parties and compared with an independent bit-by-bit plaintext decision; code positions are covered by patterns, not by all 2^12800 codes."),
"P02":("exhaustive enumeration of operation programs on the real three-party code against modular arithmetic",E,"Every program up to the stated depth over the stated alphabet runs on the real protocol code; shares are checked for consistency after every step; values outside the boundary sets are not covered at widths above 8 bits."),
"P03":("exhaustive enumeration of inputs, sharings and batch shapes on the real three-party code",E,"Every input, sharing and shape in the stated bounds is run through the real protocol code of the three parties over the checker's network and judged on shares and opened bits; values outside the boundary sets at widths above 8 bits are not covered."),
"P04":("stateless exploration of all schedules with merging of equal states (controlled executor, bounded links)",E,"All interleavings of the three parties' network operations are explored on the real code, merged where the per-party operation counts agree; randomness is fixed per run."),
"P05":("exhaustive enumeration of single-message corruptions on the real three-party code","fault_enumeration","Every message of every scenario is altered at every position of the stated set in every stated way by every party; adversaries that deviate in several messages at once are covered only in the stated combinations."),
"P06":("exhaustive enumeration of crash points and malformed messages on the real three-party code","fault_enumeration","Every network operation is taken as a crash point and every message as empty, truncated or extended; several faults in one run are not combined."),
"P07":("search for couplings of the hidden random words, checked run by run on the real three-party code, and exact enumeration of masks",E,"For every pair of secrets in the bounds and every observer, values of the random words unknown to the observer are found under which the real run with the other secrets gives the identical view; every byte of a ring element takes every value over some hidden word. Sign extraction and OR of the malicious three-party protocol are coupled message by message only; pairs outside the bounds and further random bases are not covered."),
"P08":("exhaustive enumeration of the dealer's random draws on the real sharing code",E,"All values of the dealer's draws over small rings, and over subgroups of the wide ones, are enumerated; per-share frequencies are counted exactly. Joint values of full-width draws are not enumerated above 8 bits."),
"P09":("exhaustive enumeration of operation histories in one session of the real three-party code",E,"Every history over the alphabet up to the stated depth runs in one session and is compared step by step with plain results."),
"P10":("exhaustive enumeration of batch sizes, mixtures and single deviations on the real three-party code",E,"Every batch size and mixture in the bounds is verified on the real code; wrong batches are every single deviation of one party in a word it draws or in a place of a message (for the large AND batches in quick: places spread over the messages), not combinations of several deviations."),
"P11":("exhaustive enumeration of values, sequences and message bytes on the real encoders and decoders",E,"All 8- and 16-bit values, boundary values of the wider rings, all short sequences and all message lengths up to a bound against all expected counts are enumerated; values outside the boundary sets at 32 bits and above are not."),
"P12":("exhaustive enumeration of operand pairs on the real operators against integer arithmetic",E,"All pairs at 8 bits and all bits, all 16-bit values against boundary values, boundary pairs at the wider widths; other operands of the wide rings are not covered."),
"P17":("exhaustive enumeration of positions, distances and mask weights on the real comparison",E,"Every position, every pair of nearby positions and all distances and mask weights around the limits are enumerated for patterns of codes; the 2^12800 codes themselves are not."),
"P13":("exhaustive enumeration of operands, inverses and interpolations on the real field and polynomial code against naive arithmetic",E,"All pairs of one- and two-bit field elements, all short polynomials over a boundary set of coefficients, all moduli of degree 40 to 63; other field elements and coefficients are not covered."),
"P14":("exhaustive enumeration of the cuts of the byte stream, waits and truncation points on the real channel",E,"All ways to cut streams of up to 12 bytes (15 in thorough) and all pairs (triples) of cuts of longer ones, all truncation points, in reads and writes; longer messages are cut around the frame and buffer limits only."),
"P15":("stateless exploration of all orders of jobs, dropped results, I/O progress and closing on the real managed channel",E,"Every sequence of actions at both ends up to the stated depth runs on the real reader and writer tasks over gated byte streams; the tasks run until they rest between actions (or only at the end), so interleavings inside one step are those of the runtime."),
"P16":("exhaustive enumeration of identity assignments, listing and start orders and single-packet faults on the real network over loopback",E,"Configurations, start orders and the fate of each packet between two parties are enumerated on the real QUIC mesh; the operating system's scheduling and the timing within the QUIC library are not controlled."),
"P18":("exhaustive enumeration of operation histories, setup message changes and contribution bits on the real three-party code",E,"Every history of operations up to the stated depth runs on the real code and all draws of every shared stream are compared; every bit of every setup and coin message is changed; every bit of the random contributions is inverted; every bit of openings and commitments is changed."),
"P19":("exhaustive enumeration of invalid calls and their neighbours in one session of the real three-party code",E,"All unequal shapes up to the bounds, unknown identities, missing inputs and bad queries are made before, between and after valid calls by all three parties or by one; longer vectors are covered by a few lengths."),
"P20":("exhaustive enumeration of message lists, shutdown orders and single-packet faults on the real network over loopback",E,"Message lengths, bursts, senders, orders of receiving and the fate of each packet are enumerated on the real transport; the operating system's scheduling and the timing within the QUIC library are not controlled."),
"P21":("exhaustive enumeration of call histories and write-failure points of the real tools on real database files",E,"The tools' real sources run as processes; histories, limits on the file size (every page or every third) and small databases are enumerated; codes drawn by the tools are random, judged one by one against an independent reader and, for part of them, in the real three-party protocols."),
}
