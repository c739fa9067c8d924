"""Claimed properties: id, technique, level, note."""
SPEC = ('TLA+ specification {mods} checked with TLC; TLC-generated {cases} and seeded random ones are '
        'executed by the real code and every observation is judged by TLC against the specification')
NOTE = ('The model is explored exhaustively within its bounds; the code is bound to it by judging every '
        'recorded observation, so outside the executed inputs the result is evidence, not proof.')


def claim(p, mods, cases):
    return (p, SPEC.format(mods=f'({mods})', cases=cases), 'model_checking', NOTE)


CLAIMS = [
    claim('C01', 'SharedFile, MCSharedFile', 'schedules of callers, file operations, failures and cancellations'),
    claim('C02', 'RangeReq, MCRanges', 'range requests and server behaviours'),
    claim('C03', 'Readahead, MCReadahead', 'schedules of concurrent callers, answers and cancellations'),
    claim('C04', 'Readahead, MCReadahead', 'schedules of concurrent callers, answers and cancellations'),
    claim('C05', 'TiffFile, MCHeader', 'file beginnings'),
    claim('C06', 'TiffFile, Session, MCChain, MCSession', 'directory chains and sessions'),
    claim('C07', 'TiffValue, TiffFile, MCValue', 'entries of every type and count'),
    claim('C08', 'TiffValue, MCConv', 'values'),
    claim('C09', 'TiffDir, MCDir', 'directories'),
    claim('C10', 'TiffDir, MCGeo', 'key directories'),
    claim('C11', 'TileMap, MCTiles', 'tile grids'),
    claim('C12', 'Session, MCFetch', 'schedules of concurrent tile fetches'),
    claim('C13', 'Pipeline, MCPipeline', 'tiles'),
    claim('C14', 'Decoders, Pipeline, MCDecoders', 'registries and decodes'),
    claim('C15', 'Pipeline, MCPipeline', 'tiles'),
    claim('C16', 'TiffFile, MCValue, MCBad', 'malformed files'),
    claim('C17', 'Pipeline, Decoders, MCBadTile', 'tiles and descriptions'),
    claim('C18', 'Session, MCSession', 'sequences of operations and failures'),
    claim('C19', 'Layout, Pipeline, TiffDir, MCLayout', 'layouts of the same images'),
    claim('C20', 'Session, MCHsize', 'files'),
]
NOT_APPLICABLE = [{'property': p, 'reason': 'check under construction'} for p in
                  ['C%02d' % i for i in range(1, 21)] if p not in [c[0] for c in CLAIMS]]
