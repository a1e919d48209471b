from ..names import Names

def run(root, tier):
    n = Names(root).run()
    findings = [dict(rule=rule, func=func, construct=construct,
        message=message) for (rule, func, construct), message in
        n.findings.items()]
    coverage = dict(explanation='Every name and every attribute of a module '
        '(of the package or of a library in sa/data/libs.json) is resolved; '
        'every use of a local name is checked for definite assignment on all '
        'paths with consistent branch conditions; attributes and methods of '
        'objects whose class can be inferred must exist; each resolvable call '
        'must fit the signature and the number of values it returns.',
        modules=len(n.project.modules), undecided=n.undecided, **n.count)
    return dict(findings=findings, coverage=coverage, assumptions=[
        'loops over records of a file find what they search for, other loops '
            'run at least once',
        'if-elif chains over the values of one option cover the values that '
            'occur (decided for C16)',
        'conditions on unmodified names keep their value within a routine',
        'objects of unknown class have the attributes that are used'])
