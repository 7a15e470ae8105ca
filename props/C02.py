from .coding_spec import decoder_tasks
TUS = ['coding', 'inline_inst']
DRIVER = {'src': 'coding.cc', 'sources': ['util/coding.cc']}
DRIVER_SECS = 20


def tasks(prog):
    return decoder_tasks()
