topic_note=("Random and enumerated histories against a naive matcher; reached through the cfg(apiformes_verif) re-export of the table. "
            "No proof of absence beyond what was generated.")
tech['T01']='stateful property-based testing: subscription histories against a reference matcher'; note['T01']=topic_note
tech['T02']='stateful property-based testing: option histories against a reference model'; note['T02']=topic_note
tech['T03']='stateful property-based testing: removal histories against a reference model'; note['T03']=topic_note
tech['T04']='property-based testing over generated operation plans and schedules (controlled executor plus real threads) with an interval oracle'
note['T04']=topic_note+' Schedules of the controlled executor switch at lock acquisitions only; real threads sample the rest.'

broker_note=("Real sockets against a broker started in the check's process, timed by the operating system: schedules are sampled, not enumerated. "
             "Trusts the model in harness/src/hist.rs and the independent codec; a missing outcome counts once it repeats.")
for i,t in dict(
 B01='stateful property-based testing: histories of concurrent clients against a delivery model',
 B02='property-based testing: generated CONNECTs and first packets against a reference answer',
 B03='property-based testing: generated SUBSCRIBEs against a reference answer and the deliveries that follow',
 B04='fuzzing: hostile byte streams beside observed clients, liveness and no-effect oracle',
 B05='metamorphic testing: the same stream in generated segmentations against the delivery model',
 B06='stateful property-based testing: mixed-listener histories and identifier takeovers against the permeability rule',
 B07='stateful property-based testing: overlapping and replaced subscription options against the delivery model',
 B08='property-based testing: packets around generated size limits against the size rule',
 B09='stateful property-based testing: connection histories and identifier storms against a registry model',
 B10='property-based testing: shutdown in generated server states, bounded completion and re-bind',
 B11='stateful property-based testing: unsupported packets in generated streams against a no-effect model',
 B12='property-based testing: generated configurations and addresses, the same histories against one model',
 B13='fuzzing and stateful property-based testing: tampered Noise messages with a no-effect oracle, encrypted histories against the model',
 B14='stateful property-based testing: generated load with stalled readers against the delivery model',
 B15='property-based testing: connections stopped at generated points, closed-in-time oracle',
 B16='differential property-based testing: the generated broker cases against the build without the noise feature, same models',
 B18='fault-injecting property-based testing: connections ended at generated points, released-descriptors oracle',
 B20='property-based testing: generated states of rest, processor-time oracle',
 B17='metamorphic testing: generated histories with generated log levels against the same models, written log searched for the key').items():
    tech[i]=t; note[i]=broker_note

tech['M01']='property-based testing: generated arguments and broker behaviour against the recorded traffic and report of the program'
note['M01']=('The real program as a process against a broker inside the harness; schedules are sampled. Delays are checked from below, and from above with a margin of 200 ms; rates from below only.')
tech['S01']='stateful property-based testing: the histories of the library checks against the running server program and the same models'
note['S01']=('The real program as a process; its settings are seen only through its sockets. Sampled like the library checks.')

tech['B19']='stateful property-based testing: generated rounds of traffic repeated, steady-memory oracle'
note['B19']=('Allocations are counted by the allocator of the harness on the one thread that runs broker and clients; a leak counts that grows in each of six windows of eight rounds. '
             'What several runtime threads leave behind is not measured.')
tech['S02']='fault-injecting property-based testing: the running program with a generated descriptor limit, history model of the clients it has'
note['S02']='The real program as a process with RLIMIT_NOFILE; sampled.'
tech['C12']='fuzzing: generated, damaged and over-announcing inputs with an allocation oracle'
note['C12']='Bound: 8 KiB plus 200 bytes per input byte at any time; counted by the allocator of the harness.'
cost_note='Processor time of the thread as the operating system accounts it, at one size and at sixteen times that; eight times the proportional time and 20 ms are allowed and the best of several attempts counts, so only what grows clearly faster than in proportion is seen. Sampled.'
tech['C13']='metamorphic testing: generated packets at two sizes, proportional-cost oracle'; note['C13']=cost_note
tech['T05']='metamorphic testing: generated tables at two sizes, proportional-cost oracle'; note['T05']=cost_note
tech['B22']='metamorphic testing: generated traffic at two sizes, proportional-cost oracle'; note['B22']=cost_note
tech['B21']='stateful property-based testing: interleaved generated histories of several servers in one program against one model each'; note['B21']=broker_note
