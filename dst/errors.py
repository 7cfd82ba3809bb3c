class SimFault(Exception):
    """an injected fault (device failure, dropped connection, worker crash...)"""

    def __init__(self, kind, detail=""):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind


class Violation(Exception):
    """the property does not hold on this execution"""

    def __init__(self, kind, detail="", sig=None):
        super().__init__(f"[{kind}] {detail}")
        self.kind = kind
        self.detail = detail
        self.sig = sig or kind


class PlanInvalid(Exception):
    """(only produced while minimising) the plan does not describe a legal workload"""
