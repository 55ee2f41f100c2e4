#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties below."""
import json,os
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
ids=[json.loads(l)['id'] for l in open(root+'/properties.jsonl')]
tech={}
note={}
codec_note=("Random and enumerated inputs against an oracle that shares no code with the crate; no proof of absence beyond what was generated. "
            "Trusts the independent MQTT 5 reader/writer in harness/src/refcodec.rs.")
for i,t in dict(
 C01='property-based testing: round trip over generated packets',
 C02='fuzzing: random and mutated byte strings, panic and over-read oracle',
 C03='property-based testing: length invariants over generated packets and streams',
 C04='property-based testing: all prefixes of generated frames, completeness oracle',
 C05='property-based testing: differential against an independent MQTT 5 reader',
 C06='property-based testing: legal and disturbed frames, differential against an independent MQTT 5 reader',
 C07='property-based testing: enumerated property matrix and generated property sequences against the MQTT 5 table',
 C08='stateful property-based testing: builder call sequences against a model packet',
 C09='property-based testing: generated topics and strings, differential across every entry point',
 C10='metamorphic testing: re-segmented buffers against the contiguous decoding',
 C11='property-based testing: a reader that trusts the reported shortage, over whole, cut and damaged frames').items():
    tech[i]=t; note[i]=codec_note
exec(open(os.path.join(root,'tools','manifest_more.py')).read()) if os.path.exists(os.path.join(root,'tools','manifest_more.py')) else None
checks=[dict(property=i,quick_cmd=f'./run.sh {i}',thorough_cmd=f'VERIF_TIER=thorough ./run.sh {i}',technique=tech[i],level='exploration',level_note=note[i]) for i in ids if i in tech]
m=dict(version=1,setup_cmd='true',
 hooks=dict(guard='cfg(apiformes_verif)',enable='RUSTFLAGS="--cfg apiformes_verif" (set by /verif/run.sh)',source_commits=['915ef7c']),
 checks=checks,
 not_applicable=[dict(property=i,reason='its check is not built yet') for i in ids if i not in tech],
 notes='Every check rebuilds the harness from /repo\'s working tree; ./run.sh <ID> --replay <file> re-runs one reported case.')
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks')
