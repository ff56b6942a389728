T.update({
'C09':(MODEL+" (labels in both indexes)","Random and extreme label numbers, registration orders and payments; held on those explored."),
'C18':("runtime monitor: whole index and graph state compared with a reference wallet after every indexed transaction","Random histories with repeats, reversed orders, late labels, unrelated traffic; held on those explored."),
'C19':("runtime monitor: crash and restore at random points, merge laws over random groupings, serialization round trips","Held on the histories and groupings explored."),
'C20':("runtime monitor: whole index and graph state compared with a reference wallet after every feeding operation","All seven feeding operations in random histories with wrong, missing and repeated tweaks; held on those explored."),
'C21':("runtime monitor: crash and restore at random points of random histories, merge laws, serialization round trips","Held on the histories explored; one known finding (label registered through get_labeled_address)."),
'C22':(MODEL+" (script prediction) plus isolation monitor with foreign change sets","Held on the wallets explored."),
'C23':("runtime monitor: model node with chain and mempool, wallet state compared with it after every event","Random histories with reorgs up to depth 3, conflicts, evictions and restarts; held on those explored; trusts bdk_chain."),
'C24':("runtime monitor: offline trace checker over the events fed and the ranges, tips and stored filters received","Random histories up to several thousand filters on single and multi threaded runtimes; held on those explored; events are made by the monitors."),
'C25':("runtime monitor under fault injection: both subscribers run end to end against a misbehaving HTTP server, deliveries and found coins compared with the model","Random chains and 13 kinds of transient server faults; held on those explored; one known finding (spend within the run of the payment)."),
'C26':("runtime monitor under fault injection: the wallet process against a stand-in node over RPC, killed, failed, reorganised and restarted; balances and codes printed compared with the model","Random histories; kills only while the process waits for the node; held on those explored."),
'C27':("runtime monitor: the wallet process builds and signs, every transaction compared with the model and every signature verified","Random coin sets, recipients and PSBTs; held on those explored."),
})
T.update({
'C28':("runtime monitor: the wallet library driven in process, whole wallet state compared with a reference wallet after every event, restored from its change sets at random points","Random histories; held on those explored; bdk_tx, not in the offline cache, is replaced by a stand-in."),
'C29':("runtime monitor under fault injection: the cli/v2 process against a stand-in node over RPC, killed, failed, reorganised and restarted; balances and codes printed compared with the model","Random histories; kills only while the process waits for the node; held on those explored."),
'C30':("runtime monitor: the cli/v2 process builds and signs, every transaction compared with the model and every signature verified","Random coin sets and recipients; coin selection itself is that of the stand-in for bdk_tx; held on those explored."),
'C31':("runtime monitor under fault injection: the cli/v2 process scans with compact filters from a scripted light node and a failing tweak server, stopped, killed and reorganised; balances printed compared with the model","Random histories; the light node's own synchronisation is replaced by the script; held on those explored; three known findings (reorganisation below the tip of an earlier scan, spend within the scan that finds the coin)."),
})
NA={}
