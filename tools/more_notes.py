GATE = ('TLA+ model of the gateway checked by TLC; its behaviours and TLC-generated scenarios are played into the real server, recorded histories are judged by the model\'s formulas (trace validation)',
        'Exhaustive in the model for 1 connection x 2 stores x 2 (thorough 3) packets and 2 connections x 1 store; the code is judged on the schedules and bytes generated, not on all. '
        'Trusts TLC, the driver\'s event recording, loopback TCP and Go\'s scheduler for the interleavings not forced by held storage calls.')
for i in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C11', 'C21', 'C23'):
    NOTES[i] = GATE
NOTES['C12'] = ('TLA+ model of the storage fan-out, exhaustively enumerated by TLC; every behaviour played into the real repository with scripted stores, and scenarios with refusing and slow storages into the real gateway; histories judged by TLC',
        'Exhaustive for up to 3 (thorough 4) stores in every outcome combination and short sequences of records; trusts TLC and the scripted stores.')
NOTES['C22'] = ('TLA+ specification of packet-gen\'s packet and exit status; TLC-generated command lines and server behaviours run the real binary against a scripted server, each run judged by TLC',
        'Covers every option alone, boundary values, seeded random combinations and every scripted answer; trusts TLC and the scripted server.')
NOTES['C10'] = ('TLA+ model of the idle limit with a clock, checked by TLC; its simulated behaviours are played in real time into the real server, recorded timed histories are judged by the model\'s formula',
        'Exhaustive in the model for limits of 3 ticks and none, packets in 2 parts, 7 (thorough 9) ticks; the code is judged on simulated behaviours with a tick of 300 ms. Trusts the machine to be on time within 2.5 s.')
NOTES['C16'] = ('TLA+ model of the listener\'s life, checked by TLC (safety and liveness); its simulated behaviours are played into the real server in a child process, histories judged by the model\'s formula',
        'Exhaustive in the model for 2 clients and histories of 6 (thorough 7) events; the code is judged on simulated behaviours with groups of up to 150 connections. Stop is not called while Run is between its call and listening.')
NOTES['C14'] = ('TLA+ model of a connector and its broker, checked by TLC; its simulated behaviours run the six real connectors against stand-ins of their brokers, histories judged by the model\'s formula',
        'Exhaustive in the model for 2 records and 2 (thorough 3) faults; the code is judged on about 700 simulated behaviours (thorough: up to 12 rounds of 1500). The brokers are stand-ins that speak the protocol, not the real systems; a broker that stays mute for ever is not judged.')
NOTES['C13'] = ('TLA+ model of the receiver from its start to its work, checked by TLC; TLC-generated configurations load the real repository and start the real receiver with stand-in brokers, histories judged by the model\'s formula',
        'Exhaustive in the model for 3 (thorough 4) storages; the code is judged on every set of working storages and seeded sets of failing ones, about 510 starts and loads (thorough: rounds of 1160 for 400 s). The brokers are stand-ins.')
NOTES['C15'] = ('TLA+ specification of the configuration file and its meaning; TLC-generated files read by the real reader, the shipped samples with each key varied, and the real receiver started; results judged by TLC',
        'Covers every combination of top-level keys and levels, every listed text as a parameter in every quoting, random and malformed files. YAML beyond what the specification writes (anchors, flow style) is not generated.')
