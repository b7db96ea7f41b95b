"""Which contract modules, translation units and replay harness decide each property."""
ALLTU = 'Event Object Composition Context Document Switch Predicate Media MediaSettings PlayerAnimator aux-ginga Player'.split()
MODULES = {m: ALLTU for m in 'events objects documents contexts switches medias animations values userdata links'.split()}
PROPS = {}


def prop(ids, modules, harness):
    for i in ids.split():
        PROPS[i] = dict(modules=modules.split(), harness=harness)


prop('E01 E02 E03 E04', 'events', 't_core')
prop('O01 O02 O03 O04 O05', 'objects', 't_core')
prop('D01 D02 D03 P01 P02', 'documents', 't_doc')
prop('D04', 'documents links', 't_doc')
prop('C01 C02 C03 C04', 'contexts', 't_ctx')
prop('S01 S02', 'switches', 't_ctx')
prop('M01 M02 M03 M04 M05 M06 F01', 'medias', 't_media')
prop('A01 A02 A03', 'animations', 't_anim')
prop('V01 V02 V03 V04 V05', 'values', 't_aux')
prop('U01', 'userdata', 't_aux')
prop('L01 L02', 'links', 't_ctx')
PLAYERTU = ALLTU + ['PlayerVideo', 'PlayerSigGen', 'Formatter']
MODULES['players'] = MODULES['formatters'] = MODULES['redraws'] = PLAYERTU
prop('R01 R02 R04', 'players', 't_player')
prop('R03', 'formatters redraws', 't_player')
prop('G01 G02', 'formatters', 't_player')
MODULES['parsers'] = PLAYERTU + ['Parser']
prop('X01 X02 X03 X04 X05', 'parsers', 't_parse')
MODULES['connectors'] = MODULES['parsers']
prop('X05', 'parsers connectors', 't_parse')
prop('X07 X08 X09 X10', 'connectors', 't_parse')

#: properties decided for the most part by bounded runs: not claimed as proved
OTHER = {'X10': 'pushDescriptorParam is under contract and every obligation generated from it is discharged; the rest of the property (the transfer of '
                'descriptor, region and transition attributes to the media object in popNcl) is decided by bounded runs of generated documents '
                'against an independent reader, counted under evaluations and not as proved.'}
