# target: (flavor, harness sources, cppcore sources: 'all' or a list)
SCHED = ['sched/sched.cpp']
TARGETS = {
    'c14': ('sched', ['c14_parallel_for.cpp'] + SCHED, []),
    'c01': ('asan', ['c01_hamiltonian.cpp'], 'all'),
    'c02': ('asan', ['c02_periodic.cpp'], 'all'),
    'c04': ('asan', ['c04_indices.cpp'], 'all'),
    'c07': ('asan', ['c07_modifiers.cpp'], 'all'),
    'c05': ('asan', ['c05_history.cpp'], 'all'),
    'c08': ('asan', ['c08_leads.cpp'], 'all'),
    'c09': ('asan', ['c09_lattice.cpp'], 'all'),
    'c10': ('asan', ['c10_solver.cpp'], 'all'),
    'c11': ('fast', ['c11_kpm.cpp'], 'all'),
    'c11n': ('asan_null', ['c11_kpm.cpp'], 'all'),
    'c16': ('asan', ['c16_primitives.cpp'], 'all'),
    'c16n': ('asan_null', ['c16_primitives.cpp'], 'all'),
    'c17': ('asan', ['c17_geometry.cpp'], 'all'),
    'c18': ('asan', ['c18_requests.cpp'], 'all'),
    'c19': ('fast', ['c19_bounds.cpp'], 'all'),
    'c20': ('asan', ['c20_stored.cpp'], 'all'),
    'c06': ('asan', ['c06_structure.cpp'], 'all'),
    'c03': ('asan', ['c03_shape.cpp'], 'all'),
    'c12': ('fast', ['c12_kpm_history.cpp'], 'all'),
    'c13': ('sched', ['c13_parallel_kpm.cpp'] + SCHED, ['kpm/**/*.cpp', 'hamiltonian/*.cpp', 'utils/**/*.cpp']),
    'c15': ('sched', ['c15_queue.cpp'] + SCHED, []),
}
# property: targets
CHECKS = {
    'C14': ['c14'],
    'C15': ['c15'],
    'C04': ['c04'],
    'C07': ['c07'],
    'C05': ['c05'],
    'C08': ['c08'],
    'C09': ['c09'],
    'C10': ['c10'],
    'C11': ['c11', 'c11n'],
    'C12': ['c12'],
    'C13': ['c13'],
    'C16': ['c16', 'c16n'],
    'C17': ['c17'],
    'C18': ['c18'],
    'C19': ['c19'],
    'C20': ['c20'],
    'C06': ['c06'],
    'C03': ['c03'],
    'C02': ['c02'],
    'C01': ['c01'],
    # the Python layer: run as they are, nothing is built
    'C21': ['c21_modifiers.py'],
    'C22': ['c22_shapes.py'],
    'C23': ['c23_structure.py'],
    'C24': ['c24_solver.py'],
    'C25': ['c25_sweeps.py'],
    'C26': ['c26_drawing.py'],
    'C27': ['c27_materials.py'],
    'C28': ['c28_pictures.py'],
}
# has numpy and scipy
PYTHON = '/opt/veriftools/pyvenv/bin/python'
