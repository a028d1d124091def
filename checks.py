CHECKS = {
 'C01': dict(harness=[('mc', 'c01_fastlock')]),
 'C02': dict(harness=[('mc', 'c02_mutex')]),
 'C03': dict(harness=[('mc', 'c03_microlock')]),
 'C04': dict(harness=[('mc', 'c04_rwlock')]),
 'C05': dict(harness=[('mc', 'c05_semaphore')]),
 'C06': dict(harness=[('mc', 'c06_gate')]),
 'C07': dict(harness=[('mc', 'c07_slist')]),
 'C08': dict(harness=[('mc', 'c08_thread')]),
 'C09': dict(harness=[('mc', 'c09_weakref')]),
 'C10': dict(harness=[('mc', 'c10_refcnt')]),
 'C22': dict(harness=[('sq', 'c22_seq')]),
 'C21': dict(harness=[('sq', 'c21_map')]),
 'C23': dict(harness=[('sq', 'c23_sort')]),
 'C11': dict(harness=[('mc', 'c11_future')]),
 'C12': dict(harness=[('mc', 'c12_dispatcher')]),
 'C13': dict(harness=[('mc', 'c13_msgqueue')]),
 'C14': dict(harness=[('mc', 'c14_executor')]),
 'C15': dict(harness=[('mc', 'c15_singleton')]),
 'C16': dict(harness=[('mc', 'c16_respool')]),
 'C17': dict(harness=[('mc', 'c17_poolalloc')]),
 'C18': dict(harness=[('mc', 'c18_tls')]),
 'C19': dict(harness=[('mc', 'c19_scheduler')]),
 'C20': dict(harness=[('sq', 'c20_cluster')]),
 'C26': dict(harness=[('sq', 'c26_utf')]),
 'C27': dict(harness=[('sq', 'c27_codecs')]),
 'C28': dict(harness=[('sq', 'c28_url')]),
 'C24': dict(harness=[('sq', 'c24_btree')]),
 'C25': dict(harness=[('sq', 'c25_strings')]),
 'C29': dict(harness=[('sq', 'c29_lzw')]),
 'C30': dict(harness=[('sq', 'c30_json')]),
 'C31': dict(harness=[('sq', 'c31_binjson')]),
 'C32': dict(harness=[('sq', 'c32_text')]),
 'C33': dict(harness=[('sq', 'c33_iobuffer')]),
 'C34': dict(harness=[('sq', 'c34_http')]),
 'C35': dict(harness=[('sq', 'c35_memfile')]),
 'C36': dict(harness=[('sq', 'c36_fileio')]),
 'C37': dict(harness=[('sq', 'c37_eventlog'), ('mc', 'c37_sync')]),
 'C38': dict(harness=[('sq', 'c38_dates')]),
 'C43': dict(harness=[('sq', 'c43_poll'), ('mc', 'c43_listener')]),
 'C44': dict(harness=[('sq', 'c44_process')]),
 'C45': dict(harness=[('sq', 'c45_exceptions'), ('mc', 'c45_shared')]),
 'C39': dict(harness=[('sq', 'c39_digests')]),
 'C40': dict(harness=[('sq', 'c40_config')]),
 'C41': dict(harness=[('sq', 'c41_fibers')]),
 'C42': dict(harness=[('sq', 'c42_network')]),
}
