REGISTRY = {
    'C01': ('decoder', 'memory'),
    'C02': ('decoder', 'complete'),
    'C03': ('resources', 'release'),
    'C04': ('segment', 'segmentation'),
    'C05': ('features', 'memory'),
    'C06': ('features', 'divisors'),
    'C07': ('history', 'independent'),
    'C08': ('formats', 'formats'),
    'C10': ('orders', 'orders'),
    'C11': ('orders', 'sorted_ranges'),
    'C13': ('resources', 'shared'),
    'C20': ('files', 'told'),
    'C21': ('state', 'stateless'),
    'C23': ('utf', 'decoding'),
    'C19': ('loops', 'ends'),
    'C25': ('images', 'operations'),
}
