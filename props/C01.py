from .coding_spec import encoder_tasks, decoder_tasks
TUS = ['coding', 'inline_inst']
DRIVER = {'src': 'coding.cc', 'sources': ['util/coding.cc']}
DRIVER_SECS = 20


def tasks(prog):
    return encoder_tasks() + decoder_tasks()
