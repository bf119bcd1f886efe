"""Which suites decide which property."""
import solver_checks as S, build_checks as B, front_checks as F, cxx_checks as X, lib_checks as L
SUITES = {
    "C01": [S.scheduler], "C02": [S.scheduler, B.failing_commands], "C03": [S.scheduler, B.failing_commands], "C04": [S.scheduler],
    "C05": [S.malformed],
    "C06": [B.histories_check], "C07": [B.histories_check], "C08": [B.histories_check], "C09": [B.histories_check],
    "C10": [B.spelling], "C11": [F.commands], "C12": [F.routines], "C13": [F.cli], "C14": [F.cli, S.cli_builds, B.failing_commands], "C15": [X.modules], "C16": [X.compose], "C17": [X.headers], "C18": [X.compose], "C19": [L.scripts], "C20": [L.registry], "C21": [L.install], "C22": [S.interrupts], "C23": [B.closures], "C24": [B.options], "C25": [B.histories_check], "C26": [X.generated],
}
