import json
M={
'C01':('conservation monitor over recorded station histories with simulated serial modules; reference model of the message processor','every handed-over segment is concatenated and compared with the written bytes online'),
'C02':('exactly-once monitor over recorded station histories with simulated serial modules','every byte read is compared with the presented segments online'),
'C03':('trace monitor on the first cycles of every serial module, all status bytes enumerated','flags, data and sequence numbers of every image are judged'),
'C04':('transition monitor (flow-control rules) on enumerated protocol states and random stations','every transition is judged by the rules and by the reference model'),
'C05':('independent codec as oracle, frames enumerated','bit exact comparison, both directions and round trip'),
'C06':('hold invariant: image out == image in, all raw words enumerated','byte exact comparison of images over many cycles'),
'C07':('reference model of the output image, compared byte by byte after every cycle','exact comparison over random histories'),
'C08':('address oracle on all module/channel indices of random stations','accept/reject decisions and following images are compared'),
'C09':('independent decoder over random byte-granular layouts; perturbation of foreign bytes','values, rejections and independence of foreign data are compared'),
'C10':('independent encoder over random byte-granular layouts, broken layouts','images and rejections are compared'),
'C11':('bit oracle, all words enumerated','exact comparison'),
'C12':('independent f64 scaling as oracle, all raw words x ranges x formats enumerated','tolerance of 2 % of one step'),
'C13':('independent nearest-step oracle, all steps x ranges x formats enumerated plus points between','ties within float precision may round either way'),
'C14':('independent f64 conversion as oracle, all raw words x sensor types enumerated','tolerance of 2 % of one step'),
'C15':('independent codec as oracle, low and high words enumerated, limits, random mixes','exact comparison; frequency within float precision'),
'C16':('default configuration oracle plus differential comparison with a configured module','exact comparison'),
'C17':('independent parameter decoder, all 65536 values of every register enumerated','exact comparison of all public parameters'),
'C18':('identification table as oracle, all 2^32 identifiers enumerated','exact comparison'),
'C19':('configuration oracle over random consistent and inconsistent stations','acceptance, error kind and resulting shapes are compared'),
'C20':('hostile workload under overflow checks, debug assertions, panic capture and a CPU watchdog; AddressSanitizer in the thorough tier','no panic, no overflow, no hang was observed'),
'C21':('fault injection into cycles; reference model which never sees the failed cycles','every successful cycle equals the model'),
'C22':('reference model of the reported values, compared after every cycle and request','exact comparison'),
'C23':('differential replay (alone, interleaved, parallel, moved between threads) and ThreadSanitizer','step by step comparison of all results; schedules are those of the OS with random yields'),
'C24':('type and length oracle over random value lists and data lengths','accept/reject decisions are compared'),
'C25':('error oracle over failing calls of all classes','error values and messages are compared'),
'C26':('independent address arithmetic, all addresses and offset words enumerated','exact comparison'),
'C27':('accounting allocator watching repeated epochs of cycles','growth below about 3 bytes per cycle is not seen in short runs'),
'C28':('part-wise oracle over pairs of equal, nearly equal and unrelated values','results of comparisons, hashes and copies are judged part by part'),
}
checks=[]
for k,(t,n) in M.items():
    checks.append(dict(property=k,quick_cmd=f'python3 run.py {k} quick',thorough_cmd=f'python3 run.py {k} thorough',
      evidence_file=f'evidence/{k}.json',technique='runtime monitoring: '+t,level='exploration',
      level_note='Held on the executions observed (counts in the evidence file): '+n+'. Trusts the monitor\'s own model of the documented behaviour and the compiler.'))
doc=dict(version=1,setup_cmd='python3 run.py setup',checks=checks,not_applicable=[],
 notes='No hooks in /repo: everything is observed at the public API. run.py builds harness/ against /repo\'s working tree with and without overflow checks (plus sanitizers). Replay a violation with: python3 run.py replay <file>.')
json.dump(doc,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
