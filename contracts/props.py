"""Which harnesses decide which property."""
PROPS = {
    'C01': dict(harness=['C01.cpp']),
    'C02': dict(harness=['C02.cpp']),
    'C03': dict(harness=['C03.cpp']),
    'C04': dict(harness=['C04.cpp']),
    'C05': dict(harness=['C05.cpp']),
    'C06': dict(harness=['C06.cpp']),
    'C07': dict(harness=['C07.cpp']),
    'C08': dict(harness=['C08.cpp']),
    'C09': dict(harness=['C09.cpp']),
    'C10': dict(harness=['C10.cpp'], no_native=['fvc_flux_sutherland']),
    'C11': dict(harness=['C11.cpp'], opts={'*': {'unroll': 0}}),
    'C12': dict(harness=['C12.cpp'], opts={'*': {'unroll': 0}}),
    'C13': dict(harness=['C13.cpp']),
    'C14': dict(harness=['C14.cpp'], opts={'*': {'unroll': 0}}, no_native=['fvc_vjac_bou_sv', 'fvc_vjac_int_sv']),
    'C15': dict(harness=['C15.cpp'], opts={'*': {'unroll': 0}}),
    'C16': dict(harness=['C16.cpp'], opts={'*': {'unroll': 0}}),
    'C17': dict(harness=['C17.cpp'], opts={'*': {'unroll': 0}}),
    'C18': dict(harness=['C18.cpp'], opts={'*': {'unroll': 1, 'merge': True}}),
    'C19': dict(harness=['C19.cpp'], opts={'*': {'unroll': 1, 'merge': True}}),
    'C20': dict(harness=['C20.cpp'], opts={'*': {'unroll': 1, 'merge': True, 'acc': True, 'plainroots': True}}),
    'C21': dict(harness=['C21.cpp'], opts={'*': {'unroll': 1, 'merge': True}}),
    'C22': dict(harness=['C22.cpp'], opts={'*': {'unroll': 1, 'merge': True}}),
}
