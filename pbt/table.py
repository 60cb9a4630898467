"""per-property configuration of the checks"""
WIRE = dict(exe='h_wire')
TABLE = {
    'P01': dict(WIRE, quick=dict(cases=240000, seconds=60), thorough=dict(cases=4000000, seconds=900, min=60000)),
    'P02': dict(WIRE, quick=dict(cases=240000, seconds=60), thorough=dict(cases=4000000, seconds=900, min=60000)),
    'P03': dict(WIRE, quick=dict(cases=240000, seconds=60), thorough=dict(cases=4000000, seconds=900, min=60000)),
    'P04': dict(WIRE, quick=dict(cases=90000, seconds=60), thorough=dict(cases=4000000, seconds=900, min=30000)),
    'P05': dict(WIRE, quick=dict(cases=240000, seconds=60), thorough=dict(cases=4000000, seconds=900, min=60000)),
    'P06': dict(WIRE, quick=dict(cases=320000, seconds=60), thorough=dict(cases=8000000, seconds=900, min=80000)),
    'P08': dict(exe='h_obj', quick=dict(cases=160000, seconds=60), thorough=dict(cases=4000000, seconds=900, min=40000)),
    'P09': dict(exe='h_obj', quick=dict(cases=160000, seconds=60), thorough=dict(cases=4000000, seconds=900, min=40000)),
    'P10': dict(exe='h_obj', quick=dict(cases=160000, seconds=60), thorough=dict(cases=4000000, seconds=900, min=40000)),
    'P11': dict(exe='h_obj', quick=dict(cases=160000, seconds=60), thorough=dict(cases=4000000, seconds=900, min=40000)),
    'P07': dict(WIRE, quick=dict(cases=160000, seconds=60), thorough=dict(cases=2000000, seconds=900, min=20000)),
    'P12': dict(script='gen', quick=dict(cases=72, seconds=150, min=24), thorough=dict(cases=3000, seconds=1500, min=60)),
    'P13': dict(script='gen', quick=dict(cases=56, seconds=150, min=20), thorough=dict(cases=2000, seconds=1500, min=50)),
    'P14': dict(script='gen', quick=dict(cases=72, seconds=130, min=24), thorough=dict(cases=3000, seconds=1200, min=60)),
    'P15': dict(exe='h_types', quick=dict(cases=160000, seconds=60), thorough=dict(cases=8000000, seconds=900, min=40000)),
    'P16': dict(exe='h_types', quick=dict(cases=80000, seconds=60), thorough=dict(cases=4000000, seconds=900, min=20000)),
    'P17': dict(exe='h_types', quick=dict(cases=160000, seconds=60), thorough=dict(cases=8000000, seconds=900, min=40000)),
    'P18': dict(exe='h_types', quick=dict(cases=800000, seconds=60), thorough=dict(cases=40000000, seconds=600, min=200000)),
    'P19': dict(exe='h_reg', racy=True, repeat=20, case_timeout=120, quick=dict(cases=16000, seconds=50), thorough=dict(cases=400000, seconds=900, min=3000)),
    'P20': dict(exe='h_reg', quick=dict(cases=40000, seconds=40), thorough=dict(cases=400000, seconds=600, min=4000)),
    'P21': dict(exe='h_grpc', quick=dict(cases=160000, seconds=40), thorough=dict(cases=2000000, seconds=900, min=5000), also=[dict(exe='h_native', racy=True, repeat=10, case_timeout=150, quick=dict(cases=6400, seconds=40), thorough=dict(cases=400000, seconds=600, min=800))]),
    'P22': dict(exe='h_grpc', quick=dict(cases=160000, seconds=40), thorough=dict(cases=2000000, seconds=900, min=5000), also=[dict(exe='h_native', racy=True, repeat=10, case_timeout=150, quick=dict(cases=6400, seconds=40), thorough=dict(cases=400000, seconds=600, min=800))]),
    'P23': dict(exe='h_grpc', quick=dict(cases=160000, seconds=60), thorough=dict(cases=2000000, seconds=900, min=5000)),
    'P24': dict(exe='h_grpc', quick=dict(cases=160000, seconds=40), thorough=dict(cases=2000000, seconds=900, min=7500), also=[dict(exe='h_native', racy=True, repeat=10, case_timeout=150, quick=dict(cases=6400, seconds=40), thorough=dict(cases=400000, seconds=600, min=800))]),
    'P25': dict(exe='h_grpc', quick=dict(cases=160000, seconds=60), thorough=dict(cases=2000000, seconds=900, min=5000)),
    'P26': dict(exe='h_grpc', quick=dict(cases=160000, seconds=40), thorough=dict(cases=2000000, seconds=900, min=5000), also=[dict(exe='h_native', racy=True, repeat=10, case_timeout=150, quick=dict(cases=6400, seconds=40), thorough=dict(cases=400000, seconds=600, min=800))]),
    'P30': dict(exe='h_grpc', quick=dict(cases=160000, seconds=60), thorough=dict(cases=2000000, seconds=900, min=5000)),
    'P31': dict(exe='h_grpc', quick=dict(cases=160000, seconds=50), thorough=dict(cases=2000000, seconds=900, min=5000)),
    'P32': dict(exe='h_grpc', quick=dict(cases=240000, seconds=50), thorough=dict(cases=3000000, seconds=900, min=5000)),
    'P27': dict(exe='h_thr', racy=True, repeat=20, case_timeout=120, quick=dict(cases=24000, seconds=50), thorough=dict(cases=400000, seconds=900, min=2000)),
    'P28': dict(exe='h_qml', quick=dict(cases=120000, seconds=50), thorough=dict(cases=2000000, seconds=900, min=5000)),
}
