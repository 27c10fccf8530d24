#!/usr/bin/env python3
# Writes /verif/properties.jsonl. Edit the table here, rerun, commit both.
import json,sys,os
P=[]
def p(id,title,stmt,over,q,why,files,mech,state=(),obs=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,
      quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
ph1=["phase1/phase1.go","phase1/utils.go","phase1/contribution.go","phase1/header.go","common/keypair.go","common/utils.go"]
ph2=["phase2/phase2.go","phase2/utils.go","phase2/contribution.go","phase2/header.go","common/keypair.go","common/utils.go"]

p("C01","Phase 1 verification proves every contribution in the chain",
 "Phase 1 verification succeeds only if, for every contribution recorded in the file, the proofs of knowledge of τ, α and β hold against a challenge made of that contribution's own public key, the hash of the contribution just before it (nothing for the first) and a tag distinct for each of the three secrets. It also requires that the contribution's τ, α, β in G1 and τ, β in G2 are the previous contribution's values multiplied by exactly those secrets, and that its recorded hash is the hash of its content.",
 ["inputs","histories"],"every phase 1 file, every number of contributions, every position in the chain",
 "The tests only verify honestly produced files of 4 contributions; a check that is missing, compares the wrong pair or is skipped for some position accepts them just the same.",
 ph1,[("verification loop over contributions","phase1/phase1.go: Verify"),("proof of knowledge and update checks","phase1/utils.go: verifyContribution"),("challenge derivation","common/keypair.go: GenSP"),("pairing equation","common/utils.go: SameRatio")],obs=["error returned by phase1.Verify"])
p("C02","Phase 1 verification covers every published parameter",
 "Phase 1 verification succeeds only if all published powers are consistent with the last contribution: in each of the four sections every pair of consecutive points, including pairs that straddle an internal batch boundary, has ratio τ, using fresh random coefficients for every pair. Each section must also start at the right point (the generators, or the last contribution's α and β), and β in G2 must be the last contribution's.",
 ["inputs"],"every phase 1 file, every power, every tampered point",
 "The tests never tamper with a file, and no test file is large enough to reach a second batch.",
 ph1,[("random linear combination of consecutive points","phase1/utils.go: linearCombinationG1, linearCombinationG2"),("ratio and equality checks","phase1/phase1.go: Verify")],obs=["error returned by phase1.Verify"])
p("C03","Phase 1 verification is anchored at the ceremony's starting point",
 "Without a transformed file the first contribution is checked against the group generators; with one it is checked against τ, α, β in G1 and τ, β in G2 read from that file at the positions its own power implies. Verification of a file with no contributions fails.",
 ["inputs"],"every phase 1 file, every transformed file of every power",
 "The stable tests only verify ceremonies started from scratch; the transformed-file test needs a multi-gigabyte file that isn't there.",
 ph1,[("starting parameters","phase1/contribution.go: defaultContribution")],obs=["error returned by phase1.Verify"])
p("C04","A phase 1 contribution multiplies every parameter by the right secret power",
 "A successful phase 1 contribution writes, for every power and every batch, the i-th point of the τ sections multiplied by τ^i, the i-th point of the α and β sections by α·τ^i and β·τ^i, and β in G2 by β, with the same three secrets throughout. The sections are written in the order and encoding they were read, under the same power.",
 ["inputs"],"every power, every index, across internal batch boundaries",
 "Tests use one batch; powers that restart, skip or repeat at a batch boundary, or one section scaled by the wrong secret at some indices, need files of more than 2^20 points or a working verifier to notice.",
 ph1,[("scaling by powers","phase1/utils.go: scaleG1, scaleG2, powers, batchMul"),("section sequence","phase1/phase1.go: Contribute")],obs=["file written by phase1.Contribute"])
p("C05","A phase 1 contribution extends the transcript without altering it",
 "A successful phase 1 contribution copies every earlier contribution record unchanged and in order, increments the contribution count by exactly one without ever wrapping around, and appends one record. That record holds the new τ, α, β values actually written, public keys proving the same secrets against the previous record's hash with the tags the verifier expects, and the hash of its content.",
 ["inputs","histories"],"every number of earlier contributions, every power",
 "Tests chain 4 contributions of one small power.",
 ph1,[("record construction","phase1/phase1.go: Contribute"),("proof generation","common/keypair.go: GenPublicKey"),("record encoding","phase1/contribution.go")],obs=["file written by phase1.Contribute"])
p("C06","Phase 1 initialization writes a well-formed neutral starting point",
 "Initializing phase 1 with power p writes a header with that power and no contributions, followed by exactly 2·2^p-1 and twice 2^p generators of G1, then 2^p and one generators of G2, and nothing else.",
 ["inputs"],"every supported power",
 "Tests use powers 9 and 12.",
 ["phase1/phase1.go","phase1/header.go"],[("initialization","phase1/phase1.go: Initialize")],obs=["file written by phase1.Initialize"])
p("C07","Transforming a ceremony keeps the right points of each section",
 "Transforming a ceremony file of power p into one of power q writes a header with power q and no contributions, then the first 2·2^q-1 τ powers in G1, the first 2^q of the α and of the β section, the first 2^q τ powers in G2 and β in G2, each read from where its section starts in a file of power p and converted to the compressed encoding.",
 ["inputs"],"every pair of powers q ≤ p",
 "The only test needs a multi-gigabyte file and fails without it.",
 ["phase1/phase1.go","phase1/utils.go"],[("section offsets","phase1/phase1.go: Transform"),("copy","phase1/utils.go: transformG1, transformG2")],obs=["file written by phase1.Transform"])
p("C08","Phase 2 verification proves every contribution in the chain",
 "Phase 2 verification succeeds only if, for every recorded contribution, the proof of knowledge of δ holds against a challenge made of its own public key and the hash of the contribution just before it (nothing for the first), its δ is the previous one (the origin's for the first) multiplied by exactly that secret, and its recorded hash is the hash of its content. The last contribution's δ must be the one in the parameters, and there must be at least one contribution.",
 ["inputs","histories"],"every phase 2 file and origin file, every number of contributions",
 "Tests only verify honestly produced files of at most 3 contributions.",
 ph2,[("verification loop","phase2/phase2.go: Verify"),("checks of one contribution","phase2/utils.go: verifyContribution")],obs=["error returned by phase2.Verify"])
p("C09","Phase 2 verification covers every published parameter",
 "Phase 2 verification succeeds only if δ in G1 and G2 agree relative to the origin, every point of Z and of the private-witness section is the origin's point divided by δ (checked through a random linear combination with the same fresh coefficient on both sides for every point of every batch), and the two files describe the same circuit dimensions.",
 ["inputs"],"every phase 2 file and origin file, every tampered point or header",
 "Tests never tamper with a file.",
 ph2,[("aggregation","phase2/utils.go: aggregate, verifyParameter"),("header comparison","phase2/header.go: Equal"),("δ check","phase2/phase2.go: Verify")],obs=["error returned by phase2.Verify"])
p("C10","A phase 2 contribution updates exactly δ, Z and the private section",
 "A successful phase 2 contribution multiplies δ in G1 and G2 by one fresh secret and every point of Z and of the private-witness section by its inverse, for every size and batch, and leaves the circuit dimensions in the header unchanged. It copies all earlier records unchanged, increments the count by one, and appends a record with the new δ, a proof of that same secret against the previous record's hash, and the record's hash.",
 ["inputs","histories"],"every circuit size, every number of earlier contributions",
 "Tests chain 3 contributions on two small circuits.",
 ph2,[("contribution","phase2/phase2.go: Contribute"),("scaling","phase2/utils.go: scale")],obs=["file written by phase2.Contribute"])
p("C11","Contribution hash and challenge bind everything they must",
 "The hash of a phase 1 or phase 2 contribution covers every point of the record including all its public keys. A proof's challenge point is derived from the public key's two G1 points, the previous contribution's whole hash and the tag, identically when proving and when verifying, and each successful contribution prints the hash it recorded.",
 ["inputs"],"every contribution",
 "Prover and verifier share the code, so dropping a field from the hash or the challenge keeps every test green.",
 ["phase1/contribution.go","phase2/contribution.go","common/keypair.go"],[("hash of a record","phase1/contribution.go, phase2/contribution.go: computeHash"),("challenge","common/keypair.go: GenSP")],obs=["hash field of the record","error returned by Verify"])
p("C12","Degenerate contributions are rejected",
 "Verification of either phase rejects any contribution whose public key (either of its G1 points, for any of its secrets) is the point at infinity, and any file without contributions.",
 ["inputs"],"every contribution of either phase",
 "Tests only have honest contributions; pairings skip points at infinity, so a proof made of them passes every equation.",
 ["phase1/utils.go","phase2/utils.go","phase1/phase1.go","phase2/phase2.go"],[("infinity checks","phase1/utils.go, phase2/utils.go: verifyContribution")],obs=["error returned by Verify"])
p("C13","Phase 2 initialization derives the circuit parameters correctly",
 "For every circuit, phase 2 initialization evaluates every constraint term with its own coefficient at the Lagrange point of its own constraint: A from left terms, B in G1 and G2 from right terms, and the witness polynomials from output·τ + right·ατ + left·βτ, over all constraints including lazily stored ones. It starts from δ = 1 and Z_i = (τ^(i+n) - τ^i) in bit-reversed order, and takes α, β from where phase 1 stores them.",
 ["inputs","programs"],"every circuit, every phase 1 file at least as large as the domain",
 "Tests use one MiMC circuit and a power that leaves few offsets distinguishable; other coefficient classes, lazy constraints and larger phase 1 files aren't sampled.",
 ["phase2/utils.go","phase2/phase2.go","phase2/lagrange.go"],[("evaluation","phase2/utils.go: processEvaluations, processPVCKK, accumulateG1, accumulateG2"),("Z and δ","phase2/utils.go: processDeltaAndZ"),("sections of phase 1","phase2/utils.go: processLagrange, readPhase1")],obs=["phase 2 file, srs.lag and evals"])
p("C14","Initialization from a parted circuit equals the regular one",
 "Phase 2 initialization from a split circuit writes the same phase 2 file, Lagrange file and evaluation file as initialization from the same circuit in one file, and refuses a constraint count that isn't the circuit's.",
 ["programs","inputs"],"every circuit",
 "No test compares the two, and the parted test uses a different circuit.",
 ["phase2/parted.go","phase2/utils.go","phase2/phase2.go"],[("sibling implementations","phase2/parted.go vs phase2/utils.go")],obs=["phase 2 file, srs.lag and evals"])
p("C15","Every wire's parameter lands in the section its role demands",
 "For every circuit, with or without a commitment, each wire's witness polynomial goes to exactly one section, in increasing wire order: committed private wires to the commitment section, public wires and the commitment wire to the verifying section, all others to the private section. The section sizes announced in the header equal the number of wires of each kind.",
 ["programs"],"every circuit, every set of committed wires",
 "No test has a circuit with a commitment.",
 ["phase2/utils.go","phase2/parted.go"],[("partition","phase2/utils.go: filterL"),("sizes","phase2/utils.go: processHeader; phase2/parted.go: processHeaderParted")],obs=["phase 2 file and evals"])
p("C16","Conversion to the Lagrange basis is the same inverse FFT in both groups",
 "For every domain size the conversion applies the inverse Fourier transform of the domain: at each level every butterfly combines elements half a block apart and multiplies the difference by the twiddle of that level and index, the result is bit-reversed, and every element is divided by the domain size. G1 and G2 do exactly the same, however many CPUs there are.",
 ["inputs","configurations","schedules"],"every power-of-two domain, every CPU count",
 "Tests convert two domain sizes on one machine.",
 ["lagrange/g1.go","lagrange/g2.go"],[("levels","lagrange: difFFTG1, difFFTG2"),("kernel","lagrange: kerDIF8G1, kerDIF8G2"),("bit reversal","lagrange: bitReversePointsG1, bitReversePointsG2"),("scaling","lagrange: ConvertG1, ConvertG2")],obs=["srs.lag"])
p("C17","Capacity limits are enforced before parameters are produced",
 "Phase 2 initialization fails if the circuit has more constraints than phase 1 supports and uses the smallest power-of-two domain (at least 2) that fits the constraints; the command line accepts only phase 1 powers from 1 to 26, and for transforming only powers from 1 to 28 that don't grow. The contribution counter of phase 1 never wraps around.",
 ["inputs"],"every power, circuit size and contribution count",
 "Tests stay far from the limits.",
 ["phase2/utils.go","phase2/parted.go","actions.go","phase1/phase1.go"],[("capacity check","phase2/utils.go: processHeader; phase2/parted.go: processHeaderParted"),("domain size","phase2/utils.go: nextPowerofTwo"),("power checks","actions.go: p1n, p1t")],obs=["errors of the commands"])
p("C18","Proving key files have the layout and content the prover reads",
 "Key extraction writes the proving key in the prover's field order and encoding: domain, α, β, δ in G1, A and B without their points at infinity, Z, the private section, β, δ and B in G2, the wire count, the counts of infinities of A and of B, and their flags. Each field comes from the right place of the phase 2 file or the evaluation file, and the split files hold the same fields, each in its own file.",
 ["inputs","programs"],"every circuit and phase 2 file",
 "Only the split variant's proof is a stable test, on one circuit whose A and B vectors and counts leave swaps unnoticed.",
 ["keys/keys.go"],[("extraction","keys/keys.go: extractPK, extractSplitPK"),("filters","keys/keys.go: filterInfinityG1, filterInfinityG2")],obs=["pk, <session>.pk.*.save"])
p("C19","Verifying key files have the layout and content the verifier reads",
 "Key extraction writes the verifying key in the verifier's field order: commitment key, α, β in G1, β, γ in G2, δ in G1 and G2, the public section, the circuit's commitment description, where γ is the generator, δ is the final one of the phase 2 file, and the rest comes from the right place of the evaluation file for every circuit size. The split variant writes the same key, and its commitment key file holds that key's commitment key exactly once.",
 ["inputs","programs"],"every circuit and phase 2 file",
 "Tests use one public input and no commitment.",
 ["keys/keys.go"],[("extraction","keys/keys.go: extractVK, extractSplitVK, writeTo")],obs=["vk, <session>.vk.save, <session>.pk.CommitmentKey.save"])
p("C20","Success is never reported after a failed operation",
 "No operation (initialize, transform, contribute, verify, extract, export) reports success if opening, creating, seeking, reading or writing one of its files, flushing its buffers, decoding a value or drawing randomness failed at any point, and nothing it has written is left in a buffer when it reports success.",
 ["fault_sequences","inputs"],"every failing call at every point of every operation",
 "Tests inject no fault.",
 ["phase1/phase1.go","phase1/utils.go","phase2/phase2.go","phase2/utils.go","phase2/parted.go","phase2/lagrange.go","keys/keys.go"],[("error propagation","all operations")],obs=["error returned by each operation"])
p("C21","Secrets are fresh cryptographic randomness, independently drawn",
 "Each of τ, α, β, δ and the blinding scalar of each public key is drawn separately from the cryptographic random source on every contribution and used only if the draw succeeded. The random coefficients of verification are likewise drawn from the cryptographic source, one per point and per batch.",
 ["inputs","histories","fault_sequences"],"every contribution and verification",
 "A constant, reused or predictable secret passes every functional test.",
 ["phase1/phase1.go","phase2/phase2.go","common/keypair.go","phase1/utils.go","phase2/utils.go"],[("sampling","phase1.Contribute, phase2.Contribute, common.GenPublicKey, randomize, aggregate")],obs=["values behind the written points"])
p("C22","Secrets never leave the process",
 "No secret scalar, nor anything computed from one other than group elements multiplied by it, is written to any file, printed, or put in an error.",
 ["inputs"],"every contribution",
 "Tests don't look at what else is output.",
 ["phase1/phase1.go","phase2/phase2.go","common/keypair.go"],[("outputs","every write and print of the contribute operations")],obs=["files and standard output"])
p("C23","Parallel work is partitioned exactly, joined and race-free",
 "For every number of items and CPUs, the parallel helper hands out contiguous ranges that cover every item exactly once and returns only when all have finished, and the work given to it, like every other goroutine, touches no variable or element that another goroutine may be writing.",
 ["schedules","inputs","configurations"],"every item count, CPU count and interleaving",
 "Tests run a few sizes on one machine without the race detector.",
 ["common/parallelize.go","lagrange/g1.go","lagrange/g2.go","phase1/utils.go","phase2/utils.go"],[("partition and join","common/parallelize.go: Parallelize"),("work functions","all its callers; goroutines in lagrange")],obs=["results of the operations"])
p("C24","Operations never modify their input files",
 "Every operation opens its inputs read-only, creates only its documented outputs, and contributing, transforming and initializing phase 2 refuse an output path that is one of their inputs before truncating anything.",
 ["inputs","configurations"],"every combination of paths, including aliases",
 "Tests always use distinct paths.",
 ["common/utils.go","phase1/phase1.go","phase2/phase2.go","phase2/parted.go","keys/keys.go"],[("output creation","common/utils.go: CreateOutput")],obs=["files on disk"])
p("C25","Each command runs its documented operation with its arguments in order",
 "Every command of the tool refuses a wrong number of arguments, passes each argument to its documented operation in the documented position, refuses numbers that don't parse, and makes the process fail whenever the operation failed.",
 ["inputs"],"every command and argument list",
 "No test runs the command line.",
 ["main.go","actions.go"],[("command table","main.go"),("actions","actions.go")],obs=["exit status and files"])
p("C26","Points from files are fully validated and no read is partial",
 "Every group element read from an untrusted file goes through the checking decoder (on curve and in the subgroup), and every fixed-size field (header, hash) is read completely or the operation fails.",
 ["inputs"],"every file",
 "Tests only read honest files.",
 ["phase1/contribution.go","phase1/header.go","phase2/contribution.go","phase1/utils.go","phase2/utils.go","keys/keys.go"],[("decoders","every NewDecoder"),("full reads","contribution and header readers")],obs=["error returned by each operation"])
p("C27","The exported verifier contract is the session's verifying key",
 "Exporting a session writes to <session>.sol the contract generated from the verifying key read from <session>.vk.save, and reports an error instead of success or a crash when that key can't be read or the contract can't be written.",
 ["inputs","fault_sequences"],"every session",
 "No test exports a contract.",
 ["keys/keys.go"],[("export","keys/keys.go: ExportSol")],obs=["<session>.sol"])
p("N01","Groth16 keys of a finished ceremony prove and verify",
 "Proofs made with the extracted proving key verify under the extracted verifying key exactly for satisfied circuits.",
 ["programs","inputs"],"every circuit and witness","One circuit and witness per test.",
 ["keys/keys.go","phase2/utils.go"],[("whole pipeline","all packages")])
p("N02","An interrupted operation never leaves an output that looks complete",
 "If the process is killed during an operation, its output file is absent or is rejected by the next operation that reads it.",
 ["crash_points"],"every crash point","Tests never crash the process.",
 ["phase1/phase1.go","phase2/phase2.go","keys/keys.go"],[("none: outputs are written in place","all operations")])
p("N03","Malformed files are refused with an error, never a crash",
 "For every byte content of its input files, each operation ends with success or an error, without panicking and without allocating memory out of proportion to the file.",
 ["inputs"],"every file content","Tests only read well-formed files.",
 ["phase1/phase1.go","phase2/phase2.go","phase2/header.go"],[("header fields used as sizes","all readers")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
