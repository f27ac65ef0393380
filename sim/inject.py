""" Observing and disturbing the execution of curver code, line by line or instruction by instruction.

Monitor counts executed curver lines (bounded progress), records where an execution went (profile), and stops it at
one chosen place: there it either raises an injected exception or hands the processor to another simulated thread. """
import dis, sys
import core

MON = sys.monitoring
TOOL = 4
EV = MON.events

class StepLimit(BaseException):
    """ More curver lines executed than the progress bound allows. """

class Monitor:
    """ LINE (and optionally INSTRUCTION) level observation of curver code. """
    def __init__(self, limit=None, profile=False, on_line=None, instructions=None, on_instruction=None):
        self.count = 0
        self.limit = limit
        self.profile = {} if profile else None
        self.on_line = on_line
        self.instructions = instructions
        self.on_instruction = on_instruction
        self.prefix = core.PREFIX
    def start(self):
        MON.use_tool_id(TOOL, 'sim')
        MON.register_callback(TOOL, EV.LINE, self._line)
        events = EV.LINE
        if self.on_instruction is not None:
            MON.register_callback(TOOL, EV.INSTRUCTION, self._instruction)
            events |= EV.INSTRUCTION
        MON.set_events(TOOL, events)
        MON.restart_events()
    def stop(self):
        MON.set_events(TOOL, 0)
        MON.register_callback(TOOL, EV.LINE, None)
        MON.register_callback(TOOL, EV.INSTRUCTION, None)
        MON.free_tool_id(TOOL)
    def _line(self, code, line):
        if not code.co_filename.startswith(self.prefix): return MON.DISABLE
        self.count += 1
        if self.profile is not None:
            key = (code, line)
            self.profile[key] = self.profile.get(key, 0) + 1
        if self.limit is not None and self.count > self.limit:
            raise StepLimit(f'{code.co_filename[len(core.REPO) + 1:]}:{line}')
        if self.on_line is not None:
            return self.on_line(code, line)
    def _instruction(self, code, offset):
        if code not in self.instructions:
            return MON.DISABLE
        return self.on_instruction(code, offset)
