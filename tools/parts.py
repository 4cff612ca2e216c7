# property -> the harness runs that decide it
LEVEL = {}
PARTS = {
    'C01': [dict(flavor='asan', target='h_strdict', args=['--only', 'ids'])],
    'C02': [dict(flavor='asan', target='h_strdict', args=['--only', 'search'])],
    'C03': [dict(flavor='asan', target='h_strdict', args=['--only', 'translate'])],
    'C07': [dict(flavor='asan', target='h_encoder')],
    'C14': [dict(flavor='asan', target='h_calendar')],
    'C15': [dict(flavor='asan', target='h_strings')],
    'C08': [dict(flavor='main', target='h_expr', args=['--only', 'expr'])],
    'C09': [dict(flavor='main', target='h_expr', args=['--only', 'logic'])],
    'C06': [dict(flavor='mc', target='h_conc_buf')],
    'C04': [dict(flavor='mc', target='h_conc_dict')],
    'C10': [dict(flavor='main', target='h_agg')],
    'C11': [dict(flavor='main', target='h_join')],
    'C12': [dict(flavor='main', target='h_sort')],
    'C20': [dict(flavor='main', target='h_window')],
    'C21': [dict(flavor='main', target='h_compose')],
    'C05': [dict(flavor='asan', target='h_bufmgr')],
    'C13': [dict(flavor='asan', target='h_runtime', args=['--only', 'hash_'])],
    'C16': [dict(flavor='asan', target='h_runtime', args=['--only', 'stat_'])],
    'C17': [dict(flavor='asan', target='h_result')],
    'C18': [dict(flavor='asan', target='h_ir', args=['--only', 'ir_'])],
    'C19': [dict(flavor='asan', target='h_ir', args=['--only', 'lit_'])],
}
