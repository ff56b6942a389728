#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
S='silentpayments/src/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,state=state or [],hook_needed=None)))

p('C01','A silent payment is found by its receiver and by nobody else',
 "For every set of inputs, recipients, labels and networks: if the sender derives outputs for a list of silent payment codes and puts them in a transaction in any order among any other outputs, each receiver scanning that transaction finds exactly the outputs paid to its own codes, with the right amount, outpoint, script and label. A receiver who was not paid, or who does not know the label used, finds nothing that is not its own.",
 ['inputs'],"all input type mixes, all recipient lists (repeated codes, labelled variants, receivers sharing keys), all output orders",
 "Tests use the fixed BIP352 vectors and a few hand-made transactions; the guarantee quantifies over every combination of inputs, recipients, labels and output order.",
 [S+'send/mod.rs',S+'receive/mod.rs',S+'receive/scan.rs',S+'encoding/mod.rs',S+'hashes.rs'],
 [('sender derivation',S+'send/mod.rs create_silentpayment_partial_secret, create_silentpayment_scriptpubkeys'),('scanner',S+'receive/scan.rs Scanner::scan_tx')],
 ['sender output keys','scanner result per receiver'])
p('C02','Sender-derived keys are exactly the ones BIP352 defines',
 "For every smallest outpoint, every list of input keys with their scripts and every list of recipients, the output keys handed back for each silent payment code are exactly those BIP352 defines: keys of taproot inputs are negated when their point is odd, keys of ineligible inputs do not count, the sequence number counts per scan key in the order of the recipients, and each code gets as many keys as times it was listed. The sender refuses exactly when no eligible key is given or the total of the keys is zero, whatever the order of the inputs.",
 ['inputs'],"all lists of (script, key), outpoints and recipients, including keys that cancel each other and repeated codes",
 "Vectors cover a handful of key lists; orders, cancelling subsets, and interleavings of recipients sharing a scan key are unbounded.",
 [S+'send/mod.rs',S+'hashes.rs'],[('partial secret',S+'send/mod.rs'),('input hash, shared secret hash',S+'hashes.rs')],['derived secret and keys, compared to an independent model'])
p('C03','Scanning finds all and only the outputs that belong to the wallet',
 "Scanning a transaction reports exactly the outputs BIP352's scanning loop finds for this receiver, each once, with the right outpoint, script, amount, label and spend tweak, whatever other outputs surround them. Non-taproot outputs, outputs after a gap in the sequence, outputs for unknown labels and near misses are never reported, output order does not matter, and a transaction that must not be scanned is refused.",
 ['inputs'],"all transactions, including ones a hostile sender builds against the scanner",
 "Tests scan well-formed transactions of honest senders; the exactness claim is about every transaction on the chain.",
 [S+'receive/mod.rs',S+'receive/scan.rs'],[('scanning loop',S+'receive/mod.rs scan_txouts'),('tweak data',S+'receive/mod.rs compute_tweak_data')],['scan result vs independent model'])
p('C04','Every output found can be spent with the tweak reported',
 "For each output a scan reports, adding the reported tweak to the receiver's spend secret key gives the secret key of exactly that taproot output, labelled or not, whatever the parity of the keys involved. A key-path signature made with it verifies against the output's script.",
 ['inputs'],"all receivers, labels (0 and the maximum included), transactions and parities",
 "The vectors check a few signatures; parities of four different points and all labels multiply.",
 [S+'receive/mod.rs'],[('tweak of matches',S+'receive/mod.rs find_spout_for_tweak')],['BIP340 signature verification on the real output'])
p('C05','Exactly the inputs BIP352 lists contribute a key',
 "An input contributes a public key exactly if BIP352 says so: P2TR unless spent by a script path whose internal key is the unspendable NUMS point (annex or not), P2WPKH and P2SH-P2WPKH with a compressed key, P2PKH with a compressed key (also when the signature script carries extra data around it). The key reported is the one the output commits to, every other input, malformed ones included, contributes none, and no input makes the extraction crash.",
 ['inputs'],"all spends of all script types, standard, malleated, malformed and mutated",
 "Tests use one example for each branch; script signatures, witnesses and control blocks are arbitrary third party data.",
 [S+'lib.rs',S+'receive/mod.rs'],[('classification',S+'lib.rs tag_txin'),('extraction',S+'receive/mod.rs extract_pubkey')],['extracted key vs independent model'])
p('C06','Tweak data is a function of the transaction, equal on both sides',
 "For every transaction and its spent outputs the public tweak data is the input hash times the sum of eligible public keys, with the smallest outpoint taken by its serialized bytes over all inputs, eligible or not; the order of inputs does not matter and the sender's secret times the generator is the same point. It is refused exactly when no input is eligible, the keys sum to zero, or an input spends a segwit version above 1.",
 ['inputs'],"all sets of inputs and orders, txids and output indexes whose byte order differs from their numeric order",
 "Tests compare a few transactions; byte-order corner cases, cancelling keys and permutations are unbounded.",
 [S+'lib.rs',S+'receive/mod.rs',S+'send/mod.rs'],[('smallest outpoint',S+'lib.rs LexMin'),('tweak data',S+'receive/mod.rs compute_tweak_data')],['tweak data vs independent model'])
p('C07','A silent payment code survives encoding and decoding',
 "Formatting any silent payment code and parsing the text (lower or upper case) gives back the same version, scan key, spend key and network family, and the text is exactly the bech32m encoding BIP352 prescribes with the prefix of the network. Codes of future versions up to 30 parse to their first two keys, adding a label changes only the spend key by exactly the label point, and the placeholder script of a code is always the same valid taproot script and differs between codes.",
 ['inputs'],"all key pairs, networks, versions and labels",
 "Tests round-trip a few constants.",
 [S+'encoding/mod.rs'],[('Display / TryFrom',S+'encoding/mod.rs')],['text vs independent encoder; parse results'])
p('C08','Only valid silent payment codes parse',
 "A string parses as a silent payment code exactly if it is one: valid bech32m within its length limit and not mixed case, a silent payment prefix, a version below 31, zero padding of at most 4 bits, a payload of exactly 66 bytes for version 0 and at least 66 for versions 1 to 30, and two valid compressed public keys. Any other string is rejected with an error and never a crash.",
 ['inputs'],"all strings: mutations of valid codes, other encodings, junk",
 "Tests try one example per error variant; the accept set is over all strings.",
 [S+'encoding/mod.rs',S+'encoding/error.rs'],[('parser',S+'encoding/mod.rs TryFrom<&str>')],['parse verdict vs independent decoder'])
p('C09','Labels registered in an index attribute payments to the right label',
 "For every wallet and every set of label numbers, registering a label, asking for its labelled code and receiving a payment on that code are consistent: the index reports the payment under exactly that label number and its spend tweak includes it, both for the first and the second generation index. Labels are deterministic in the scan key and number, registering one again changes nothing, distinct labels give distinct codes, and payments to labels that were never registered are not reported.",
 ['inputs','histories'],"all label numbers including change (0) and the extremes, all orders of registration and payment",
 "Tests use one or two labels.",
 ['indexer/src/lib.rs','indexer/src/v2/indexes.rs','indexer/src/v2/mod.rs',S+'encoding/mod.rs'],[('label registration','indexer/src/lib.rs SpIndexes::add_label; indexer/src/v2/mod.rs add_label, get_labeled_address')],['labelled code vs model; label of found outputs'])
p('C10','Scripts predicted from a tweak are those of the payments',
 "From a transaction's public tweak and nothing else, the scripts a wallet predicts for sequence number k are exactly the plain one and one for each registered label; so every payment to the wallet is among the predictions for its sequence number, and the predictions for a foreign transaction match none of its outputs. Light clients that match predicted scripts against filters therefore miss no payment.",
 ['inputs'],"all receivers, label sets, transactions and sequence numbers",
 "Tests check the first sequence number of few transactions.",
 [S+'receive/scan.rs',S+'receive/mod.rs'],[('prediction',S+'receive/mod.rs get_silentpayment_script_pubkey; '+S+'receive/scan.rs get_spks_from_tweak')],['predicted scripts vs model and vs scan result'])
p('C11','PSBT derivation writes the right scripts and changes nothing else',
 "Whenever all keys are available and the PSBT is complete, the derivation succeeds and replaces every placeholder output by the script BIP352 derives for its recipient, so the receivers find their payments in the final transaction. It holds for every mix of input types, key requests by derivation path or key, full or partial previous transactions and silent payment inputs; amounts, other outputs, inputs and all other PSBT data stay as they were.",
 ['inputs'],"all PSBTs with mixed inputs, repeated recipients and key sources",
 "Unit tests use mostly single-input PSBTs with one key source.",
 [S+'send/psbt/mod.rs'],[('derive_sp',S+'send/psbt/mod.rs')],['PSBT before and after; receivers scanning the final transaction'])
p('C12','A PSBT derivation that cannot be right fails and leaves the PSBT alone',
 "If any eligible input's key is unknown or does not belong to it, a previous output is missing or contradicted by the previous transaction given, an input is not finalized, keys sum to zero, an input spends an unknown segwit version, or the number of payments to a recipient differs from its placeholder outputs, the derivation returns an error and the PSBT is exactly as before. It never reports success with outputs a receiver could not find, never pays part of the recipients, and never crashes on malformed PSBT data.",
 ['inputs','fault_sequences'],"all faults injected at any input or recipient of any PSBT",
 "Tests inject each fault once in a tiny PSBT.",
 [S+'send/psbt/mod.rs'],[('checks of derive_sp',S+'send/psbt/mod.rs')],['result and PSBT before/after'])
p('C13','Silent payment inputs get valid signatures, everything else is untouched',
 "Signing a PSBT puts a signature in every input that spends a silent payment output whose tweak data and spend key are available, and that signature is of the sighash type the input asks for and verifies under the output's key for the transaction being signed. Inputs that are already signed, belong to others, or carry wrong or malformed data are left as they are without a crash, nothing else in the PSBT changes and signing again changes nothing.",
 ['inputs'],"all mixes of signable, foreign, malformed and presigned inputs",
 "The only test signs one well-formed input.",
 [S+'send/psbt/sign.rs'],[('sign_sp',S+'send/psbt/sign.rs')],['BIP341 verification of every signature; PSBT diff'])
p('C14','Wallet-style senders (HD keys, silent payment coins) pay findable outputs',
 "Outputs derived by the sender working from an HD master key (any supported script type with its derivation path) and by the sender spending previously received silent payment outputs are found by the receivers in the transaction spending exactly those inputs. Received outputs, labelled or not, can be passed on hop after hop.",
 ['inputs','histories'],"all mixes of script types and derivation paths, chains of payments",
 "Tests compare with one precomputed result for each sender.",
 [S+'send/bip32.rs',S+'send/bip352.rs'],[('HD sender',S+'send/bip32.rs'),('silent payment sender',S+'send/bip352.rs')],['receivers scanning the real transaction'])
p('C15','Honest DLEQ proofs verify and are deterministic',
 "For every secret key, base point, generator, auxiliary randomness and optional message, the proof generated verifies for the matching public key and shared point, and equals the one BIP374 specifies for these inputs.",
 ['inputs'],"all secrets, points, generators, randomness and messages",
 "The vectors cover a few dozen inputs.",
 ['dleq/src/lib.rs'],[('generate, verify','dleq/src/lib.rs')],['verdict and bytes vs independent BIP374 model'])
p('C16','No wrong statement or altered DLEQ proof verifies',
 "A proof verifies only for exactly the statement it was made for: changing any bit of the proof, any point, the generator or the message (including adding or dropping it), swapping roles of points, or forging proofs without the secret is rejected. Out-of-range scalars and degenerate points are rejected too, and verification never crashes.",
 ['inputs'],"all tamperings of proofs and statements, forged proofs",
 "Tests reject the few altered vectors of the BIP.",
 ['dleq/src/lib.rs'],[('verify','dleq/src/lib.rs')],['verdict vs independent BIP374 verifier'])
p('C17','Third-party data never crashes the library',
 "Whatever bytes third parties put in transactions, witnesses, scripts, silent payment codes, tweak data or proofs, the library's functions return a result or an error: no panic, no overflow, no unbounded loop.",
 ['inputs'],"all byte strings, structured and random",
 "Tests use well-formed data and a few specific errors.",
 [S+'lib.rs',S+'receive/mod.rs',S+'encoding/mod.rs','dleq/src/lib.rs'],[('parsers and extractors',S+'lib.rs, '+S+'encoding/mod.rs')],['panics, arithmetic overflow checks'])
p('C18','Indexing records exactly the wallet-relevant transactions (first index)',
 "Feeding transactions in any order, the first generation index owns exactly the outputs paid to the wallet's codes, each with its spend tweak, label, script and shared secret. Indexing puts exactly the transactions that pay the wallet in its graph (with the outputs they spend, so fees are known), and a transaction is reported as spending exactly when it spends an output the index owns. Indexing a transaction again, or one with nothing for the wallet or without eligible inputs, changes nothing and never fails.",
 ['histories','inputs'],"all histories of payments, spends, repeats and unrelated transactions, labels registered at any point",
 "Tests index no transaction at all.",
 ['indexer/src/lib.rs'],[('index_tx, spends_owned_spouts','indexer/src/lib.rs SpIndexer'),('queries','indexer/src/lib.rs SpIndexes')],['index and graph content vs model after each transaction'])
p('C19','Change sets of the first index rebuild the same index',
 "The change sets of the first generation index, taken at any points of any history, merged in order or applied one by one in any grouping, serialized and read back, rebuild an index with the same content that goes on to report the same changes. Merging loses nothing, is associative and idempotent with the empty change set as identity, and a change set with any content is not considered empty.",
 ['histories','crash_points'],"all histories cut at any point, all ways to group change sets",
 "No test restores an index.",
 ['indexer/src/lib.rs'],[('SpIndexesChangeSet, Merge, From','indexer/src/lib.rs')],['restored index vs original'])
p('C20','Indexing records exactly the wallet-relevant transactions (second index)',
 "Fed with transactions and their tweaks one by one, in batches in any order or in blocks, confirmed or not, the second generation index owns exactly the wallet's outputs, each with the tweak that spends it. The relevant feeding operations keep in the graph, with their anchors and times, exactly the transactions that pay the wallet or spend something it owns, including spends listed before the payment in the same batch. Wrong, missing or repeated tweaks and unrelated transactions leave no trace, and the change set returned describes exactly what changed.",
 ['histories','inputs'],"all histories of payments, spends, repeats and unrelated transactions, in any order",
 "No test feeds this index.",
 ['indexer/src/v2/mod.rs','indexer/src/v2/indexes.rs'],[('feeding operations','indexer/src/v2/mod.rs'),('SpIndex','indexer/src/v2/indexes.rs')],['index and graph content vs model after each operation'])
p('C21','A wallet restored from persisted change sets is the same wallet',
 "At any point of any history, a second generation index restored from the change sets produced so far (merged, serialized and read back) has the same keys, labels, transactions, anchors and outputs with the same spending data as the original, and goes on to find the same payments. A change set that carries information is never considered empty and an operation that changed the wallet never returns an empty one, so nothing is lost by skipping empty ones; change sets without the wallet's keys restore nothing.",
 ['histories','crash_points'],"all histories, all crash points between change sets",
 "No test restores an index.",
 ['indexer/src/v2/mod.rs','indexer/src/v2/indexes.rs'],[('ChangeSet, apply_changeset, TryFrom','indexer/src/v2/mod.rs'),('Label serialization','indexer/src/v2/indexes.rs')],['restored index vs original'])
p('C22','Predicted scripts and addresses of the second index match its payments',
 "The scripts the second generation index derives from a tweak are exactly those that a payment to the wallet or one of its registered labels has at the first sequence number, so a light client matching them misses no payment, and the addresses it shows are the wallet's. Data of one wallet never leaks into another one: change sets made for other keys (either key differing) are not absorbed, and other wallets find nothing in this wallet's transactions.",
 ['inputs','histories'],"all wallets, label sets and tweaks",
 "No test derives scripts from a tweak with labels.",
 ['indexer/src/v2/mod.rs','indexer/src/v2/indexes.rs'],[('derive_spks_for_tweak, addresses','indexer/src/v2/mod.rs')],['scripts and codes vs model'])
p('C23','Balance follows the chain: no coin lost, none counted twice',
 "After any sequence of payments, spends, confirmations, reorganisations, conflicting spends, mempool arrivals and evictions, rescans and restarts fed to either index, the wallet's unspent outputs, their confirmation heights and spenders are exactly those of the node's chain and mempool, and the confirmed and pending balances are their sums.",
 ['histories'],"all histories with reorganisations and conflicting spends",
 "No test checks a balance.",
 ['indexer/src/lib.rs','indexer/src/v2/mod.rs'],[('indexed transaction graph','indexer/src (with bdk_chain)')],['balance and unspent outputs vs a model node'])
p('C24','Every block filter is stored and handed on once, before the tip it belongs to',
 "Whatever the order, number and timing of the events a node emits, the filter subscriber stores every block filter from the birthday on and hands it on exactly once for every time the node reported it and did not replace it: before the tip of the sync it belongs to is announced, every height has been handed on with the node's latest block for it (reorganisations included), in any number of filters. Filters below the birthday and tips the node did not announce are never handed on. When the node stops or the consumer goes away the subscriber ends and says which, without a panic.",
 ['schedules','histories','inputs'],"all event histories (syncs, reorganisations of any depth, rescans, any number of filters), all interleavings with the consumer and all points at which it goes away",
 "Tests need a live node and do not run the subscribers at all; ranges fill up only after 1000 filters, reorganisations and closing channels race with the consumer.",
 ['oracles/src/filters/kyoto.rs'],[('FilterSubscriber::run','oracles/src/filters/kyoto.rs'),('DatabaseBuffer::push_filter, write_queue','oracles/src/filters/kyoto.rs')],['ranges and tips received vs events fed','stored filters in the database'])
p('C25','The light client misses no payment even when the tweak server fails',
 "Scanning with block filters and a tweak server, every block of the chain from the birthday on that pays one of the wallet's codes (in a transaction with a taproot output of at least 1000 sat) or spends a coin it was given as unspent is delivered exactly once, in chain order and before the tip is announced, with the right tweak for the paying transaction, so that the wallet finds exactly the coins paid to it; blocks whose filter matches nothing of the wallet are not delivered. This holds for every sequence of transient failures of the server: refused and broken connections, error statuses, malformed, truncated, late and out-of-order answers, and requests which are never answered, are retried, never taken for an answer.",
 ['fault_sequences','schedules','histories'],"all chains (with reorganisations), all fault sequences and response timings of the tweak server, several runs over one database",
 "Tests need a live server; the defect classes need faults at particular requests, reordered answers or blocks without tweaks.",
 ['oracles/src/tweaks/blindbit.rs'],[('BlindbitSubscriber::process_changes','oracles/src/tweaks/blindbit.rs'),('BlindbitClient::tweaks','oracles/src/tweaks/blindbit.rs'),('SpIndexerV2::derive_spks_for_tweak','indexer/src/v2/mod.rs')],['matches and tips received','requests and faults logged by the server','coins in the index vs model'])
p('C26','The command line wallet shows what it was paid, across crashes and reorgs',
 "The silent payment code of the command line wallet (cli/v1) and the labelled codes it shows are those of its keys, and a scan that ends successfully leaves it at the node's tip with exactly the coins paid to these codes on the best chain: its confirmed balance is the sum of the unspent ones, and what reorganisations removed is pending until mined again, replaced or spent. This holds after any sequence of blocks, reorganisations (also in the middle of a scan), labels registered, restarts, failing requests and scans killed at any request: an interrupted scan leaves the wallet as of some block it had already read, never with part of a block or past one it has not looked at, and the next scan goes on from there.",
 ['histories','crash_points','fault_sequences'],"all histories of blocks and reorganisations, all requests at which a scan is killed or fails, all times of the periodic commits",
 "Tests do not run the command line wallet.",
 ['cli/v1/src/main.rs'],[('scan, balance, code, init, generate','cli/v1/src/main.rs'),('index_tx','indexer/src/lib.rs')],['balance and codes printed vs model','requests seen by the node'])
p('C27','Transactions built by the command line wallet are valid and pay as asked',
 "A transaction the command line wallet (cli/v1) builds spends only its own unspent coins, each once, chosen in the order asked for, pays exactly the amount asked to the address or to an output that the owner of the code finds, and returns the rest to the wallet as change it finds again, less a fee of at least 1 sat/vB and not much more; it can be replaced. Every signature it adds is valid, alone or together with inputs of others, which it leaves alone; payments it cannot fund or on another network are refused. Turning an output of an ordinary transaction into a silent payment yields the output the recipient finds and changes nothing else, or is refused when the keys of the inputs are not all known.",
 ['inputs','histories'],"all coin sets (confirmed or pending, labelled or not), recipients, amounts and coin selections; all transactions with known and unknown inputs",
 "Tests do not run the command line wallet.",
 ['cli/v1/src/main.rs'],[('new-psbt, sign-psbt, to-silent-payment','cli/v1/src/main.rs'),('SpSender','silentpayments/src/send/bip352.rs'),('XprivSilentPaymentSender','silentpayments/src/send/bip32.rs')],['transactions printed vs model','signatures verified'])
p('C28','The wallet library is the wallet of its descriptor, also after a restart',
 "A wallet of the library (wallet/) made from a private taproot descriptor and a birthday has the BIP352 keys of that descriptor: its address, its change address and the labelled addresses it hands out (the change label never among them) are those of these keys, and the keys it spends with open the outputs. After any history of blocks, chain updates, reorganisations and labels, its balance, canonical transactions, unspent scripts and spending candidates are exactly those of the payments to these addresses on its chain, every output counted, several with the same script included. The change sets it stages, taken at any points, stored, and merged in any grouping in order restore the same wallet with its birthday, network, labels and coins; change sets without its keys restore nothing, and public or other descriptors are refused.",
 ['histories','crash_points','inputs'],"all histories of blocks, reorganisations, labels and restarts at any point, all ways to group change sets",
 "The wallet library has no tests.",
 ['wallet/src/lib.rs','wallet/src/signers.rs'],[('SpWallet, ChangeSet','wallet/src/lib.rs'),('get_spend_sk, populate_sp_keymap','wallet/src/signers.rs')],['whole wallet state vs model after each event','restored wallet vs model'])
p('C29','The second command line wallet shows what it was paid, across crashes and reorgs',
 "The command line wallet of cli/v2, created from a seed phrase and a birthday, has the silent payment codes of its keys, and a scan over RPC that ends successfully leaves it at the node's tip with exactly the coins paid to them on the best chain from the birthday on: the balance shown is the sum of the unspent ones, and what reorganisations removed is pending until mined again, replaced or spent. This holds after any sequence of blocks, reorganisations (also in the middle of a scan, and of any depth), labels registered, restarts, failing requests and scans killed at any request: an interrupted scan loses nothing that was stored and the next one finds everything. The script, tweak data and shared secret shown for a transaction, output number and label are those BIP352 defines.",
 ['histories','crash_points','fault_sequences'],"all histories of blocks and reorganisations, all birthdays, all requests at which a scan is killed or fails",
 "Tests do not run the command line wallet.",
 ['cli/v2/src/main.rs','wallet/src/lib.rs'],[('create, scan-rpc, balance, code, label, derive-sp-for-tx','cli/v2/src/main.rs'),('SpWallet','wallet/src/lib.rs')],['balance and codes printed vs model','requests seen by the node'])
p('C30','Transactions built by the second command line wallet are valid and pay as asked',
 "A transaction the command line wallet of cli/v2 builds spends only its own unspent coins, each once, pays exactly the amounts asked to every address and to an output the owner of every code finds, holds the data asked for, and returns the rest to the wallet as change it finds again, at about the fee rate asked for; it can be replaced. Every signature is valid. Payments it cannot fund, of another network, or signed with the descriptor of another wallet are refused.",
 ['inputs','histories'],"all coin sets (confirmed or pending, labelled or not, several with one script), recipients (several codes and addresses mixed), amounts, fee rates",
 "Tests do not run the command line wallet.",
 ['cli/v2/src/main.rs','wallet/src/lib.rs','wallet/src/signers.rs','silentpayments/src/psbt/mod.rs'],[('new-tx','cli/v2/src/main.rs'),('all_candidates, create_psbt','wallet/src/lib.rs'),('signing','wallet/src/signers.rs')],['transactions printed vs model','signatures verified'])
p('C31','A scan with compact block filters finds everything, however it ends',
 "A scan of the second command line wallet with compact block filters (scan-cbf) that ends successfully leaves the wallet at the tip its light node reported, with exactly the coins paid to it, and not spent, in the blocks from the birthday, or the block it was told to start from, to that tip. This holds over any number of scans, in turn with scans over RPC, whatever the node does on the way: reorganisations before the tip is reached, blocks that leave the chain before they are fetched, late answers, a tweak server failing at times. When the node stops before the tip is reached, or the wallet is killed, the scan does not say it is complete and does not hang, nothing that was stored is lost, and the next scan finds everything.",
 ['histories','crash_points','fault_sequences'],"all histories of blocks, filters, scans and reorganisations, all points at which the node stops or the wallet is killed",
 "Tests run neither the program nor the subscribers together with a wallet.",
 ['cli/v2/src/main.rs','wallet/src/lib.rs','oracles/src/filters/kyoto.rs','oracles/src/tweaks/blindbit.rs'],[('scan-cbf, scan-rpc','cli/v2/src/main.rs'),('FilterSubscriber','oracles/src/filters/kyoto.rs'),('BlindbitSubscriber','oracles/src/tweaks/blindbit.rs'),('SpWallet','wallet/src/lib.rs')],['balance printed vs model','blocks asked of the node'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
open(out,'w').write(''.join(json.dumps(x)+'\n' for x in P))
