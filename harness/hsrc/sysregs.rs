//! AArch64 system register names, the crate's constant for each, and the architectural encoding.
use gdbstub_arch::aarch64::reg::id::AArch64RegId as R;

pub const SYS: &[(&str, R, u16)] = &[
    ("MIDR_EL1", R::MIDR_EL1, 0xc000),
    ("MPIDR_EL1", R::MPIDR_EL1, 0xc005),
    ("REVIDR_EL1", R::REVIDR_EL1, 0xc006),
    ("ID_PFR0_EL1", R::ID_PFR0_EL1, 0xc008),
    ("ID_PFR1_EL1", R::ID_PFR1_EL1, 0xc009),
    ("ID_DFR0_EL1", R::ID_DFR0_EL1, 0xc00a),
    ("ID_AFR0_EL1", R::ID_AFR0_EL1, 0xc00b),
    ("ID_MMFR0_EL1", R::ID_MMFR0_EL1, 0xc00c),
    ("ID_MMFR1_EL1", R::ID_MMFR1_EL1, 0xc00d),
    ("ID_MMFR2_EL1", R::ID_MMFR2_EL1, 0xc00e),
    ("ID_MMFR3_EL1", R::ID_MMFR3_EL1, 0xc00f),
    ("ID_ISAR0_EL1", R::ID_ISAR0_EL1, 0xc010),
    ("ID_ISAR1_EL1", R::ID_ISAR1_EL1, 0xc011),
    ("ID_ISAR2_EL1", R::ID_ISAR2_EL1, 0xc012),
    ("ID_ISAR3_EL1", R::ID_ISAR3_EL1, 0xc013),
    ("ID_ISAR4_EL1", R::ID_ISAR4_EL1, 0xc014),
    ("ID_ISAR5_EL1", R::ID_ISAR5_EL1, 0xc015),
    ("ID_MMFR4_EL1", R::ID_MMFR4_EL1, 0xc016),
    ("ID_ISAR6_EL1", R::ID_ISAR6_EL1, 0xc017),
    ("MVFR0_EL1", R::MVFR0_EL1, 0xc018),
    ("MVFR1_EL1", R::MVFR1_EL1, 0xc019),
    ("MVFR2_EL1", R::MVFR2_EL1, 0xc01a),
    ("ID_PFR2_EL1", R::ID_PFR2_EL1, 0xc01c),
    ("ID_DFR1_EL1", R::ID_DFR1_EL1, 0xc01d),
    ("ID_MMFR5_EL1", R::ID_MMFR5_EL1, 0xc01e),
    ("ID_AA64PFR0_EL1", R::ID_AA64PFR0_EL1, 0xc020),
    ("ID_AA64PFR1_EL1", R::ID_AA64PFR1_EL1, 0xc021),
    ("ID_AA64ZFR0_EL1", R::ID_AA64ZFR0_EL1, 0xc024),
    ("ID_AA64SMFR0_EL1", R::ID_AA64SMFR0_EL1, 0xc025),
    ("ID_AA64DFR0_EL1", R::ID_AA64DFR0_EL1, 0xc028),
    ("ID_AA64DFR1_EL1", R::ID_AA64DFR1_EL1, 0xc029),
    ("ID_AA64AFR0_EL1", R::ID_AA64AFR0_EL1, 0xc02c),
    ("ID_AA64AFR1_EL1", R::ID_AA64AFR1_EL1, 0xc02d),
    ("ID_AA64ISAR0_EL1", R::ID_AA64ISAR0_EL1, 0xc030),
    ("ID_AA64ISAR1_EL1", R::ID_AA64ISAR1_EL1, 0xc031),
    ("ID_AA64ISAR2_EL1", R::ID_AA64ISAR2_EL1, 0xc032),
    ("ID_AA64MMFR0_EL1", R::ID_AA64MMFR0_EL1, 0xc038),
    ("ID_AA64MMFR1_EL1", R::ID_AA64MMFR1_EL1, 0xc039),
    ("ID_AA64MMFR2_EL1", R::ID_AA64MMFR2_EL1, 0xc03a),
    ("SCTLR_EL1", R::SCTLR_EL1, 0xc080),
    ("ACTLR_EL1", R::ACTLR_EL1, 0xc081),
    ("CPACR_EL1", R::CPACR_EL1, 0xc082),
    ("RGSR_EL1", R::RGSR_EL1, 0xc085),
    ("GCR_EL1", R::GCR_EL1, 0xc086),
    ("ZCR_EL1", R::ZCR_EL1, 0xc090),
    ("TRFCR_EL1", R::TRFCR_EL1, 0xc091),
    ("SMPRI_EL1", R::SMPRI_EL1, 0xc094),
    ("SMCR_EL1", R::SMCR_EL1, 0xc096),
    ("TTBR0_EL1", R::TTBR0_EL1, 0xc100),
    ("TTBR1_EL1", R::TTBR1_EL1, 0xc101),
    ("TCR_EL1", R::TCR_EL1, 0xc102),
    ("APIAKEYLO_EL1", R::APIAKEYLO_EL1, 0xc108),
    ("APIAKEYHI_EL1", R::APIAKEYHI_EL1, 0xc109),
    ("APIBKEYLO_EL1", R::APIBKEYLO_EL1, 0xc10a),
    ("APIBKEYHI_EL1", R::APIBKEYHI_EL1, 0xc10b),
    ("APDAKEYLO_EL1", R::APDAKEYLO_EL1, 0xc110),
    ("APDAKEYHI_EL1", R::APDAKEYHI_EL1, 0xc111),
    ("APDBKEYLO_EL1", R::APDBKEYLO_EL1, 0xc112),
    ("APDBKEYHI_EL1", R::APDBKEYHI_EL1, 0xc113),
    ("APGAKEYLO_EL1", R::APGAKEYLO_EL1, 0xc118),
    ("APGAKEYHI_EL1", R::APGAKEYHI_EL1, 0xc119),
    ("SPSR_EL1", R::SPSR_EL1, 0xc200),
    ("ELR_EL1", R::ELR_EL1, 0xc201),
    ("SP_EL0", R::SP_EL0, 0xc208),
    ("ICC_PMR_EL1", R::ICC_PMR_EL1, 0xc230),
    ("ICV_PMR_EL1", R::ICV_PMR_EL1, 0xc230),
    ("AFSR0_EL1", R::AFSR0_EL1, 0xc288),
    ("AFSR1_EL1", R::AFSR1_EL1, 0xc289),
    ("ESR_EL1", R::ESR_EL1, 0xc290),
    ("ERRIDR_EL1", R::ERRIDR_EL1, 0xc298),
    ("ERRSELR_EL1", R::ERRSELR_EL1, 0xc299),
    ("ERXFR_EL1", R::ERXFR_EL1, 0xc2a0),
    ("ERXCTLR_EL1", R::ERXCTLR_EL1, 0xc2a1),
    ("ERXSTATUS_EL1", R::ERXSTATUS_EL1, 0xc2a2),
    ("ERXADDR_EL1", R::ERXADDR_EL1, 0xc2a3),
    ("ERXPFGF_EL1", R::ERXPFGF_EL1, 0xc2a4),
    ("ERXPFGCTL_EL1", R::ERXPFGCTL_EL1, 0xc2a5),
    ("ERXPFGCDN_EL1", R::ERXPFGCDN_EL1, 0xc2a6),
    ("ERXMISC0_EL1", R::ERXMISC0_EL1, 0xc2a8),
    ("ERXMISC1_EL1", R::ERXMISC1_EL1, 0xc2a9),
    ("ERXMISC2_EL1", R::ERXMISC2_EL1, 0xc2aa),
    ("ERXMISC3_EL1", R::ERXMISC3_EL1, 0xc2ab),
    ("TFSR_EL1", R::TFSR_EL1, 0xc2b0),
    ("TFSRE0_EL1", R::TFSRE0_EL1, 0xc2b1),
    ("FAR_EL1", R::FAR_EL1, 0xc300),
    ("PAR_EL1", R::PAR_EL1, 0xc3a0),
    ("PMSCR_EL1", R::PMSCR_EL1, 0xc4c8),
    ("PMSNEVFR_EL1", R::PMSNEVFR_EL1, 0xc4c9),
    ("PMSICR_EL1", R::PMSICR_EL1, 0xc4ca),
    ("PMSIRR_EL1", R::PMSIRR_EL1, 0xc4cb),
    ("PMSFCR_EL1", R::PMSFCR_EL1, 0xc4cc),
    ("PMSEVFR_EL1", R::PMSEVFR_EL1, 0xc4cd),
    ("PMSLATFR_EL1", R::PMSLATFR_EL1, 0xc4ce),
    ("PMSIDR_EL1", R::PMSIDR_EL1, 0xc4cf),
    ("PMBLIMITR_EL1", R::PMBLIMITR_EL1, 0xc4d0),
    ("PMBPTR_EL1", R::PMBPTR_EL1, 0xc4d1),
    ("PMBSR_EL1", R::PMBSR_EL1, 0xc4d3),
    ("PMBIDR_EL1", R::PMBIDR_EL1, 0xc4d7),
    ("TRBLIMITR_EL1", R::TRBLIMITR_EL1, 0xc4d8),
    ("TRBPTR_EL1", R::TRBPTR_EL1, 0xc4d9),
    ("TRBBASER_EL1", R::TRBBASER_EL1, 0xc4da),
    ("TRBSR_EL1", R::TRBSR_EL1, 0xc4db),
    ("TRBMAR_EL1", R::TRBMAR_EL1, 0xc4dc),
    ("TRBTRG_EL1", R::TRBTRG_EL1, 0xc4de),
    ("TRBIDR_EL1", R::TRBIDR_EL1, 0xc4df),
    ("PMINTENSET_EL1", R::PMINTENSET_EL1, 0xc4f1),
    ("PMINTENCLR_EL1", R::PMINTENCLR_EL1, 0xc4f2),
    ("PMMIR_EL1", R::PMMIR_EL1, 0xc4f6),
    ("MAIR_EL1", R::MAIR_EL1, 0xc510),
    ("AMAIR_EL1", R::AMAIR_EL1, 0xc518),
    ("LORSA_EL1", R::LORSA_EL1, 0xc520),
    ("LOREA_EL1", R::LOREA_EL1, 0xc521),
    ("LORN_EL1", R::LORN_EL1, 0xc522),
    ("LORC_EL1", R::LORC_EL1, 0xc523),
    ("MPAMIDR_EL1", R::MPAMIDR_EL1, 0xc524),
    ("LORID_EL1", R::LORID_EL1, 0xc527),
    ("MPAM1_EL1", R::MPAM1_EL1, 0xc528),
    ("MPAM0_EL1", R::MPAM0_EL1, 0xc529),
    ("MPAMSM_EL1", R::MPAMSM_EL1, 0xc52b),
    ("VBAR_EL1", R::VBAR_EL1, 0xc600),
    ("RVBAR_EL1", R::RVBAR_EL1, 0xc601),
    ("RMR_EL1", R::RMR_EL1, 0xc602),
    ("ISR_EL1", R::ISR_EL1, 0xc608),
    ("DISR_EL1", R::DISR_EL1, 0xc609),
    ("ICC_IAR0_EL1", R::ICC_IAR0_EL1, 0xc640),
    ("ICV_IAR0_EL1", R::ICV_IAR0_EL1, 0xc640),
    ("ICC_EOIR0_EL1", R::ICC_EOIR0_EL1, 0xc641),
    ("ICV_EOIR0_EL1", R::ICV_EOIR0_EL1, 0xc641),
    ("ICC_HPPIR0_EL1", R::ICC_HPPIR0_EL1, 0xc642),
    ("ICV_HPPIR0_EL1", R::ICV_HPPIR0_EL1, 0xc642),
    ("ICC_BPR0_EL1", R::ICC_BPR0_EL1, 0xc643),
    ("ICV_BPR0_EL1", R::ICV_BPR0_EL1, 0xc643),
    ("ICC_AP0R0_EL1", R::ICC_AP0R0_EL1, 0xc644),
    ("ICV_AP0R0_EL1", R::ICV_AP0R0_EL1, 0xc644),
    ("ICC_AP0R1_EL1", R::ICC_AP0R1_EL1, 0xc645),
    ("ICV_AP0R1_EL1", R::ICV_AP0R1_EL1, 0xc645),
    ("ICC_AP0R2_EL1", R::ICC_AP0R2_EL1, 0xc646),
    ("ICV_AP0R2_EL1", R::ICV_AP0R2_EL1, 0xc646),
    ("ICC_AP0R3_EL1", R::ICC_AP0R3_EL1, 0xc647),
    ("ICV_AP0R3_EL1", R::ICV_AP0R3_EL1, 0xc647),
    ("ICC_AP1R0_EL1", R::ICC_AP1R0_EL1, 0xc648),
    ("ICV_AP1R0_EL1", R::ICV_AP1R0_EL1, 0xc648),
    ("ICC_AP1R1_EL1", R::ICC_AP1R1_EL1, 0xc649),
    ("ICV_AP1R1_EL1", R::ICV_AP1R1_EL1, 0xc649),
    ("ICC_AP1R2_EL1", R::ICC_AP1R2_EL1, 0xc64a),
    ("ICV_AP1R2_EL1", R::ICV_AP1R2_EL1, 0xc64a),
    ("ICC_AP1R3_EL1", R::ICC_AP1R3_EL1, 0xc64b),
    ("ICV_AP1R3_EL1", R::ICV_AP1R3_EL1, 0xc64b),
    ("ICC_NMIAR1_EL1", R::ICC_NMIAR1_EL1, 0xc64d),
    ("ICV_NMIAR1_EL1", R::ICV_NMIAR1_EL1, 0xc64d),
    ("ICC_DIR_EL1", R::ICC_DIR_EL1, 0xc659),
    ("ICV_DIR_EL1", R::ICV_DIR_EL1, 0xc659),
    ("ICC_RPR_EL1", R::ICC_RPR_EL1, 0xc65b),
    ("ICV_RPR_EL1", R::ICV_RPR_EL1, 0xc65b),
    ("ICC_SGI1R_EL1", R::ICC_SGI1R_EL1, 0xc65d),
    ("ICC_ASGI1R_EL1", R::ICC_ASGI1R_EL1, 0xc65e),
    ("ICC_SGI0R_EL1", R::ICC_SGI0R_EL1, 0xc65f),
    ("ICC_IAR1_EL1", R::ICC_IAR1_EL1, 0xc660),
    ("ICV_IAR1_EL1", R::ICV_IAR1_EL1, 0xc660),
    ("ICC_EOIR1_EL1", R::ICC_EOIR1_EL1, 0xc661),
    ("ICV_EOIR1_EL1", R::ICV_EOIR1_EL1, 0xc661),
    ("ICC_HPPIR1_EL1", R::ICC_HPPIR1_EL1, 0xc662),
    ("ICV_HPPIR1_EL1", R::ICV_HPPIR1_EL1, 0xc662),
    ("ICC_BPR1_EL1", R::ICC_BPR1_EL1, 0xc663),
    ("ICV_BPR1_EL1", R::ICV_BPR1_EL1, 0xc663),
    ("ICC_CTLR_EL1", R::ICC_CTLR_EL1, 0xc664),
    ("ICV_CTLR_EL1", R::ICV_CTLR_EL1, 0xc664),
    ("ICC_SRE_EL1", R::ICC_SRE_EL1, 0xc665),
    ("ICC_IGRPEN0_EL1", R::ICC_IGRPEN0_EL1, 0xc666),
    ("ICV_IGRPEN0_EL1", R::ICV_IGRPEN0_EL1, 0xc666),
    ("ICC_IGRPEN1_EL1", R::ICC_IGRPEN1_EL1, 0xc667),
    ("ICV_IGRPEN1_EL1", R::ICV_IGRPEN1_EL1, 0xc667),
    ("CONTEXTIDR_EL1", R::CONTEXTIDR_EL1, 0xc681),
    ("TPIDR_EL1", R::TPIDR_EL1, 0xc684),
    ("ACCDATA_EL1", R::ACCDATA_EL1, 0xc685),
    ("SCXTNUM_EL1", R::SCXTNUM_EL1, 0xc687),
    ("CNTKCTL_EL1", R::CNTKCTL_EL1, 0xc708),
    ("CCSIDR_EL1", R::CCSIDR_EL1, 0xc800),
    ("CLIDR_EL1", R::CLIDR_EL1, 0xc801),
    ("CCSIDR2_EL1", R::CCSIDR2_EL1, 0xc802),
    ("GMID_EL1", R::GMID_EL1, 0xc804),
    ("SMIDR_EL1", R::SMIDR_EL1, 0xc806),
    ("AIDR_EL1", R::AIDR_EL1, 0xc807),
    ("CSSELR_EL1", R::CSSELR_EL1, 0xd000),
    ("CTR_EL0", R::CTR_EL0, 0xd801),
    ("DCZID_EL0", R::DCZID_EL0, 0xd807),
    ("RNDR", R::RNDR, 0xd920),
    ("RNDRRS", R::RNDRRS, 0xd921),
    ("SVCR", R::SVCR, 0xda12),
    ("FPCR", R::FPCR, 0xda20),
    ("FPSR", R::FPSR, 0xda21),
    ("DSPSR_EL0", R::DSPSR_EL0, 0xda28),
    ("DLR_EL0", R::DLR_EL0, 0xda29),
    ("PMCR_EL0", R::PMCR_EL0, 0xdce0),
    ("PMCNTENSET_EL0", R::PMCNTENSET_EL0, 0xdce1),
    ("PMCNTENCLR_EL0", R::PMCNTENCLR_EL0, 0xdce2),
    ("PMOVSCLR_EL0", R::PMOVSCLR_EL0, 0xdce3),
    ("PMSWINC_EL0", R::PMSWINC_EL0, 0xdce4),
    ("PMSELR_EL0", R::PMSELR_EL0, 0xdce5),
    ("PMCEID0_EL0", R::PMCEID0_EL0, 0xdce6),
    ("PMCEID1_EL0", R::PMCEID1_EL0, 0xdce7),
    ("PMCCNTR_EL0", R::PMCCNTR_EL0, 0xdce8),
    ("PMXEVTYPER_EL0", R::PMXEVTYPER_EL0, 0xdce9),
    ("PMXEVCNTR_EL0", R::PMXEVCNTR_EL0, 0xdcea),
    ("PMUSERENR_EL0", R::PMUSERENR_EL0, 0xdcf0),
    ("PMOVSSET_EL0", R::PMOVSSET_EL0, 0xdcf3),
    ("TPIDR_EL0", R::TPIDR_EL0, 0xde82),
    ("TPIDRRO_EL0", R::TPIDRRO_EL0, 0xde83),
    ("TPIDR2_EL0", R::TPIDR2_EL0, 0xde85),
    ("SCXTNUM_EL0", R::SCXTNUM_EL0, 0xde87),
    ("AMCR_EL0", R::AMCR_EL0, 0xde90),
    ("AMCFGR_EL0", R::AMCFGR_EL0, 0xde91),
    ("AMCGCR_EL0", R::AMCGCR_EL0, 0xde92),
    ("AMUSERENR_EL0", R::AMUSERENR_EL0, 0xde93),
    ("AMCNTENCLR0_EL0", R::AMCNTENCLR0_EL0, 0xde94),
    ("AMCNTENSET0_EL0", R::AMCNTENSET0_EL0, 0xde95),
    ("AMCG1IDR_EL0", R::AMCG1IDR_EL0, 0xde96),
    ("AMCNTENCLR1_EL0", R::AMCNTENCLR1_EL0, 0xde98),
    ("AMCNTENSET1_EL0", R::AMCNTENSET1_EL0, 0xde99),
    ("AMEVCNTR00_EL0", R::AMEVCNTR00_EL0, 0xdea0),
    ("AMEVCNTR01_EL0", R::AMEVCNTR01_EL0, 0xdea1),
    ("AMEVCNTR02_EL0", R::AMEVCNTR02_EL0, 0xdea2),
    ("AMEVCNTR03_EL0", R::AMEVCNTR03_EL0, 0xdea3),
    ("AMEVTYPER00_EL0", R::AMEVTYPER00_EL0, 0xdeb0),
    ("AMEVTYPER01_EL0", R::AMEVTYPER01_EL0, 0xdeb1),
    ("AMEVTYPER02_EL0", R::AMEVTYPER02_EL0, 0xdeb2),
    ("AMEVTYPER03_EL0", R::AMEVTYPER03_EL0, 0xdeb3),
    ("AMEVCNTR10_EL0", R::AMEVCNTR10_EL0, 0xdee0),
    ("AMEVCNTR11_EL0", R::AMEVCNTR11_EL0, 0xdee1),
    ("AMEVCNTR12_EL0", R::AMEVCNTR12_EL0, 0xdee2),
    ("AMEVCNTR13_EL0", R::AMEVCNTR13_EL0, 0xdee3),
    ("AMEVCNTR14_EL0", R::AMEVCNTR14_EL0, 0xdee4),
    ("AMEVCNTR15_EL0", R::AMEVCNTR15_EL0, 0xdee5),
    ("AMEVCNTR16_EL0", R::AMEVCNTR16_EL0, 0xdee6),
    ("AMEVCNTR17_EL0", R::AMEVCNTR17_EL0, 0xdee7),
    ("AMEVCNTR18_EL0", R::AMEVCNTR18_EL0, 0xdee8),
    ("AMEVCNTR19_EL0", R::AMEVCNTR19_EL0, 0xdee9),
    ("AMEVCNTR110_EL0", R::AMEVCNTR110_EL0, 0xdeea),
    ("AMEVCNTR111_EL0", R::AMEVCNTR111_EL0, 0xdeeb),
    ("AMEVCNTR112_EL0", R::AMEVCNTR112_EL0, 0xdeec),
    ("AMEVCNTR113_EL0", R::AMEVCNTR113_EL0, 0xdeed),
    ("AMEVCNTR114_EL0", R::AMEVCNTR114_EL0, 0xdeee),
    ("AMEVCNTR115_EL0", R::AMEVCNTR115_EL0, 0xdeef),
    ("AMEVTYPER10_EL0", R::AMEVTYPER10_EL0, 0xdef0),
    ("AMEVTYPER11_EL0", R::AMEVTYPER11_EL0, 0xdef1),
    ("AMEVTYPER12_EL0", R::AMEVTYPER12_EL0, 0xdef2),
    ("AMEVTYPER13_EL0", R::AMEVTYPER13_EL0, 0xdef3),
    ("AMEVTYPER14_EL0", R::AMEVTYPER14_EL0, 0xdef4),
    ("AMEVTYPER15_EL0", R::AMEVTYPER15_EL0, 0xdef5),
    ("AMEVTYPER16_EL0", R::AMEVTYPER16_EL0, 0xdef6),
    ("AMEVTYPER17_EL0", R::AMEVTYPER17_EL0, 0xdef7),
    ("AMEVTYPER18_EL0", R::AMEVTYPER18_EL0, 0xdef8),
    ("AMEVTYPER19_EL0", R::AMEVTYPER19_EL0, 0xdef9),
    ("AMEVTYPER110_EL0", R::AMEVTYPER110_EL0, 0xdefa),
    ("AMEVTYPER111_EL0", R::AMEVTYPER111_EL0, 0xdefb),
    ("AMEVTYPER112_EL0", R::AMEVTYPER112_EL0, 0xdefc),
    ("AMEVTYPER113_EL0", R::AMEVTYPER113_EL0, 0xdefd),
    ("AMEVTYPER114_EL0", R::AMEVTYPER114_EL0, 0xdefe),
    ("AMEVTYPER115_EL0", R::AMEVTYPER115_EL0, 0xdeff),
    ("CNTFRQ_EL0", R::CNTFRQ_EL0, 0xdf00),
    ("CNTPCT_EL0", R::CNTPCT_EL0, 0xdf01),
    ("CNTVCT_EL0", R::CNTVCT_EL0, 0xdf02),
    ("CNTPCTSS_EL0", R::CNTPCTSS_EL0, 0xdf05),
    ("CNTVCTSS_EL0", R::CNTVCTSS_EL0, 0xdf06),
    ("CNTP_TVAL_EL0", R::CNTP_TVAL_EL0, 0xdf10),
    ("CNTP_CTL_EL0", R::CNTP_CTL_EL0, 0xdf11),
    ("CNTP_CVAL_EL0", R::CNTP_CVAL_EL0, 0xdf12),
    ("CNTV_TVAL_EL0", R::CNTV_TVAL_EL0, 0xdf18),
    ("CNTV_CTL_EL0", R::CNTV_CTL_EL0, 0xdf19),
    ("CNTV_CVAL_EL0", R::CNTV_CVAL_EL0, 0xdf1a),
    ("PMEVCNTR0_EL0", R::PMEVCNTR0_EL0, 0xdf40),
    ("PMEVCNTR1_EL0", R::PMEVCNTR1_EL0, 0xdf41),
    ("PMEVCNTR2_EL0", R::PMEVCNTR2_EL0, 0xdf42),
    ("PMEVCNTR3_EL0", R::PMEVCNTR3_EL0, 0xdf43),
    ("PMEVCNTR4_EL0", R::PMEVCNTR4_EL0, 0xdf44),
    ("PMEVCNTR5_EL0", R::PMEVCNTR5_EL0, 0xdf45),
    ("PMEVCNTR6_EL0", R::PMEVCNTR6_EL0, 0xdf46),
    ("PMEVCNTR7_EL0", R::PMEVCNTR7_EL0, 0xdf47),
    ("PMEVCNTR8_EL0", R::PMEVCNTR8_EL0, 0xdf48),
    ("PMEVCNTR9_EL0", R::PMEVCNTR9_EL0, 0xdf49),
    ("PMEVCNTR10_EL0", R::PMEVCNTR10_EL0, 0xdf4a),
    ("PMEVCNTR11_EL0", R::PMEVCNTR11_EL0, 0xdf4b),
    ("PMEVCNTR12_EL0", R::PMEVCNTR12_EL0, 0xdf4c),
    ("PMEVCNTR13_EL0", R::PMEVCNTR13_EL0, 0xdf4d),
    ("PMEVCNTR14_EL0", R::PMEVCNTR14_EL0, 0xdf4e),
    ("PMEVCNTR15_EL0", R::PMEVCNTR15_EL0, 0xdf4f),
    ("PMEVCNTR16_EL0", R::PMEVCNTR16_EL0, 0xdf50),
    ("PMEVCNTR17_EL0", R::PMEVCNTR17_EL0, 0xdf51),
    ("PMEVCNTR18_EL0", R::PMEVCNTR18_EL0, 0xdf52),
    ("PMEVCNTR19_EL0", R::PMEVCNTR19_EL0, 0xdf53),
    ("PMEVCNTR20_EL0", R::PMEVCNTR20_EL0, 0xdf54),
    ("PMEVCNTR21_EL0", R::PMEVCNTR21_EL0, 0xdf55),
    ("PMEVCNTR22_EL0", R::PMEVCNTR22_EL0, 0xdf56),
    ("PMEVCNTR23_EL0", R::PMEVCNTR23_EL0, 0xdf57),
    ("PMEVCNTR24_EL0", R::PMEVCNTR24_EL0, 0xdf58),
    ("PMEVCNTR25_EL0", R::PMEVCNTR25_EL0, 0xdf59),
    ("PMEVCNTR26_EL0", R::PMEVCNTR26_EL0, 0xdf5a),
    ("PMEVCNTR27_EL0", R::PMEVCNTR27_EL0, 0xdf5b),
    ("PMEVCNTR28_EL0", R::PMEVCNTR28_EL0, 0xdf5c),
    ("PMEVCNTR29_EL0", R::PMEVCNTR29_EL0, 0xdf5d),
    ("PMEVCNTR30_EL0", R::PMEVCNTR30_EL0, 0xdf5e),
    ("PMEVTYPER0_EL0", R::PMEVTYPER0_EL0, 0xdf60),
    ("PMEVTYPER1_EL0", R::PMEVTYPER1_EL0, 0xdf61),
    ("PMEVTYPER2_EL0", R::PMEVTYPER2_EL0, 0xdf62),
    ("PMEVTYPER3_EL0", R::PMEVTYPER3_EL0, 0xdf63),
    ("PMEVTYPER4_EL0", R::PMEVTYPER4_EL0, 0xdf64),
    ("PMEVTYPER5_EL0", R::PMEVTYPER5_EL0, 0xdf65),
    ("PMEVTYPER6_EL0", R::PMEVTYPER6_EL0, 0xdf66),
    ("PMEVTYPER7_EL0", R::PMEVTYPER7_EL0, 0xdf67),
    ("PMEVTYPER8_EL0", R::PMEVTYPER8_EL0, 0xdf68),
    ("PMEVTYPER9_EL0", R::PMEVTYPER9_EL0, 0xdf69),
    ("PMEVTYPER10_EL0", R::PMEVTYPER10_EL0, 0xdf6a),
    ("PMEVTYPER11_EL0", R::PMEVTYPER11_EL0, 0xdf6b),
    ("PMEVTYPER12_EL0", R::PMEVTYPER12_EL0, 0xdf6c),
    ("PMEVTYPER13_EL0", R::PMEVTYPER13_EL0, 0xdf6d),
    ("PMEVTYPER14_EL0", R::PMEVTYPER14_EL0, 0xdf6e),
    ("PMEVTYPER15_EL0", R::PMEVTYPER15_EL0, 0xdf6f),
    ("PMEVTYPER16_EL0", R::PMEVTYPER16_EL0, 0xdf70),
    ("PMEVTYPER17_EL0", R::PMEVTYPER17_EL0, 0xdf71),
    ("PMEVTYPER18_EL0", R::PMEVTYPER18_EL0, 0xdf72),
    ("PMEVTYPER19_EL0", R::PMEVTYPER19_EL0, 0xdf73),
    ("PMEVTYPER20_EL0", R::PMEVTYPER20_EL0, 0xdf74),
    ("PMEVTYPER21_EL0", R::PMEVTYPER21_EL0, 0xdf75),
    ("PMEVTYPER22_EL0", R::PMEVTYPER22_EL0, 0xdf76),
    ("PMEVTYPER23_EL0", R::PMEVTYPER23_EL0, 0xdf77),
    ("PMEVTYPER24_EL0", R::PMEVTYPER24_EL0, 0xdf78),
    ("PMEVTYPER25_EL0", R::PMEVTYPER25_EL0, 0xdf79),
    ("PMEVTYPER26_EL0", R::PMEVTYPER26_EL0, 0xdf7a),
    ("PMEVTYPER27_EL0", R::PMEVTYPER27_EL0, 0xdf7b),
    ("PMEVTYPER28_EL0", R::PMEVTYPER28_EL0, 0xdf7c),
    ("PMEVTYPER29_EL0", R::PMEVTYPER29_EL0, 0xdf7d),
    ("PMEVTYPER30_EL0", R::PMEVTYPER30_EL0, 0xdf7e),
    ("PMCCFILTR_EL0", R::PMCCFILTR_EL0, 0xdf7f),
    ("VPIDR_EL2", R::VPIDR_EL2, 0xe000),
    ("VMPIDR_EL2", R::VMPIDR_EL2, 0xe005),
    ("SCTLR_EL2", R::SCTLR_EL2, 0xe080),
    ("ACTLR_EL2", R::ACTLR_EL2, 0xe081),
    ("HCR_EL2", R::HCR_EL2, 0xe088),
    ("MDCR_EL2", R::MDCR_EL2, 0xe089),
    ("CPTR_EL2", R::CPTR_EL2, 0xe08a),
    ("HSTR_EL2", R::HSTR_EL2, 0xe08b),
    ("HFGRTR_EL2", R::HFGRTR_EL2, 0xe08c),
    ("HFGWTR_EL2", R::HFGWTR_EL2, 0xe08d),
    ("HFGITR_EL2", R::HFGITR_EL2, 0xe08e),
    ("HACR_EL2", R::HACR_EL2, 0xe08f),
    ("ZCR_EL2", R::ZCR_EL2, 0xe090),
    ("TRFCR_EL2", R::TRFCR_EL2, 0xe091),
    ("HCRX_EL2", R::HCRX_EL2, 0xe092),
    ("SMPRIMAP_EL2", R::SMPRIMAP_EL2, 0xe095),
    ("SMCR_EL2", R::SMCR_EL2, 0xe096),
    ("SDER32_EL2", R::SDER32_EL2, 0xe099),
    ("TTBR0_EL2", R::TTBR0_EL2, 0xe100),
    ("TTBR1_EL2", R::TTBR1_EL2, 0xe101),
    ("TCR_EL2", R::TCR_EL2, 0xe102),
    ("VTTBR_EL2", R::VTTBR_EL2, 0xe108),
    ("VTCR_EL2", R::VTCR_EL2, 0xe10a),
    ("VNCR_EL2", R::VNCR_EL2, 0xe110),
    ("VSTTBR_EL2", R::VSTTBR_EL2, 0xe130),
    ("VSTCR_EL2", R::VSTCR_EL2, 0xe132),
    ("DACR32_EL2", R::DACR32_EL2, 0xe180),
    ("HDFGRTR_EL2", R::HDFGRTR_EL2, 0xe18c),
    ("HDFGWTR_EL2", R::HDFGWTR_EL2, 0xe18d),
    ("HAFGRTR_EL2", R::HAFGRTR_EL2, 0xe18e),
    ("SPSR_EL2", R::SPSR_EL2, 0xe200),
    ("ELR_EL2", R::ELR_EL2, 0xe201),
    ("SP_EL1", R::SP_EL1, 0xe208),
    ("SPSR_IRQ", R::SPSR_IRQ, 0xe218),
    ("SPSR_ABT", R::SPSR_ABT, 0xe219),
    ("SPSR_UND", R::SPSR_UND, 0xe21a),
    ("SPSR_FIQ", R::SPSR_FIQ, 0xe21b),
    ("IFSR32_EL2", R::IFSR32_EL2, 0xe281),
    ("AFSR0_EL2", R::AFSR0_EL2, 0xe288),
    ("AFSR1_EL2", R::AFSR1_EL2, 0xe289),
    ("ESR_EL2", R::ESR_EL2, 0xe290),
    ("VSESR_EL2", R::VSESR_EL2, 0xe293),
    ("FPEXC32_EL2", R::FPEXC32_EL2, 0xe298),
    ("TFSR_EL2", R::TFSR_EL2, 0xe2b0),
    ("FAR_EL2", R::FAR_EL2, 0xe300),
    ("HPFAR_EL2", R::HPFAR_EL2, 0xe304),
    ("PMSCR_EL2", R::PMSCR_EL2, 0xe4c8),
    ("MAIR_EL2", R::MAIR_EL2, 0xe510),
    ("AMAIR_EL2", R::AMAIR_EL2, 0xe518),
    ("MPAMHCR_EL2", R::MPAMHCR_EL2, 0xe520),
    ("MPAMVPMV_EL2", R::MPAMVPMV_EL2, 0xe521),
    ("MPAM2_EL2", R::MPAM2_EL2, 0xe528),
    ("MPAMVPM0_EL2", R::MPAMVPM0_EL2, 0xe530),
    ("MPAMVPM1_EL2", R::MPAMVPM1_EL2, 0xe531),
    ("MPAMVPM2_EL2", R::MPAMVPM2_EL2, 0xe532),
    ("MPAMVPM3_EL2", R::MPAMVPM3_EL2, 0xe533),
    ("MPAMVPM4_EL2", R::MPAMVPM4_EL2, 0xe534),
    ("MPAMVPM5_EL2", R::MPAMVPM5_EL2, 0xe535),
    ("MPAMVPM6_EL2", R::MPAMVPM6_EL2, 0xe536),
    ("MPAMVPM7_EL2", R::MPAMVPM7_EL2, 0xe537),
    ("VBAR_EL2", R::VBAR_EL2, 0xe600),
    ("RVBAR_EL2", R::RVBAR_EL2, 0xe601),
    ("RMR_EL2", R::RMR_EL2, 0xe602),
    ("VDISR_EL2", R::VDISR_EL2, 0xe609),
    ("ICH_AP0R0_EL2", R::ICH_AP0R0_EL2, 0xe640),
    ("ICH_AP0R1_EL2", R::ICH_AP0R1_EL2, 0xe641),
    ("ICH_AP0R2_EL2", R::ICH_AP0R2_EL2, 0xe642),
    ("ICH_AP0R3_EL2", R::ICH_AP0R3_EL2, 0xe643),
    ("ICH_AP1R0_EL2", R::ICH_AP1R0_EL2, 0xe648),
    ("ICH_AP1R1_EL2", R::ICH_AP1R1_EL2, 0xe649),
    ("ICH_AP1R2_EL2", R::ICH_AP1R2_EL2, 0xe64a),
    ("ICH_AP1R3_EL2", R::ICH_AP1R3_EL2, 0xe64b),
    ("ICC_SRE_EL2", R::ICC_SRE_EL2, 0xe64d),
    ("ICH_HCR_EL2", R::ICH_HCR_EL2, 0xe658),
    ("ICH_VTR_EL2", R::ICH_VTR_EL2, 0xe659),
    ("ICH_MISR_EL2", R::ICH_MISR_EL2, 0xe65a),
    ("ICH_EISR_EL2", R::ICH_EISR_EL2, 0xe65b),
    ("ICH_ELRSR_EL2", R::ICH_ELRSR_EL2, 0xe65d),
    ("ICH_VMCR_EL2", R::ICH_VMCR_EL2, 0xe65f),
    ("ICH_LR0_EL2", R::ICH_LR0_EL2, 0xe660),
    ("ICH_LR1_EL2", R::ICH_LR1_EL2, 0xe661),
    ("ICH_LR2_EL2", R::ICH_LR2_EL2, 0xe662),
    ("ICH_LR3_EL2", R::ICH_LR3_EL2, 0xe663),
    ("ICH_LR4_EL2", R::ICH_LR4_EL2, 0xe664),
    ("ICH_LR5_EL2", R::ICH_LR5_EL2, 0xe665),
    ("ICH_LR6_EL2", R::ICH_LR6_EL2, 0xe666),
    ("ICH_LR7_EL2", R::ICH_LR7_EL2, 0xe667),
    ("ICH_LR8_EL2", R::ICH_LR8_EL2, 0xe668),
    ("ICH_LR9_EL2", R::ICH_LR9_EL2, 0xe669),
    ("ICH_LR10_EL2", R::ICH_LR10_EL2, 0xe66a),
    ("ICH_LR11_EL2", R::ICH_LR11_EL2, 0xe66b),
    ("ICH_LR12_EL2", R::ICH_LR12_EL2, 0xe66c),
    ("ICH_LR13_EL2", R::ICH_LR13_EL2, 0xe66d),
    ("ICH_LR14_EL2", R::ICH_LR14_EL2, 0xe66e),
    ("ICH_LR15_EL2", R::ICH_LR15_EL2, 0xe66f),
    ("CONTEXTIDR_EL2", R::CONTEXTIDR_EL2, 0xe681),
    ("TPIDR_EL2", R::TPIDR_EL2, 0xe682),
    ("SCXTNUM_EL2", R::SCXTNUM_EL2, 0xe687),
    ("AMEVCNTVOFF00_EL2", R::AMEVCNTVOFF00_EL2, 0xe6c0),
    ("AMEVCNTVOFF01_EL2", R::AMEVCNTVOFF01_EL2, 0xe6c1),
    ("AMEVCNTVOFF02_EL2", R::AMEVCNTVOFF02_EL2, 0xe6c2),
    ("AMEVCNTVOFF03_EL2", R::AMEVCNTVOFF03_EL2, 0xe6c3),
    ("AMEVCNTVOFF04_EL2", R::AMEVCNTVOFF04_EL2, 0xe6c4),
    ("AMEVCNTVOFF05_EL2", R::AMEVCNTVOFF05_EL2, 0xe6c5),
    ("AMEVCNTVOFF06_EL2", R::AMEVCNTVOFF06_EL2, 0xe6c6),
    ("AMEVCNTVOFF07_EL2", R::AMEVCNTVOFF07_EL2, 0xe6c7),
    ("AMEVCNTVOFF08_EL2", R::AMEVCNTVOFF08_EL2, 0xe6c8),
    ("AMEVCNTVOFF09_EL2", R::AMEVCNTVOFF09_EL2, 0xe6c9),
    ("AMEVCNTVOFF010_EL2", R::AMEVCNTVOFF010_EL2, 0xe6ca),
    ("AMEVCNTVOFF011_EL2", R::AMEVCNTVOFF011_EL2, 0xe6cb),
    ("AMEVCNTVOFF012_EL2", R::AMEVCNTVOFF012_EL2, 0xe6cc),
    ("AMEVCNTVOFF013_EL2", R::AMEVCNTVOFF013_EL2, 0xe6cd),
    ("AMEVCNTVOFF014_EL2", R::AMEVCNTVOFF014_EL2, 0xe6ce),
    ("AMEVCNTVOFF015_EL2", R::AMEVCNTVOFF015_EL2, 0xe6cf),
    ("AMEVCNTVOFF10_EL2", R::AMEVCNTVOFF10_EL2, 0xe6d0),
    ("AMEVCNTVOFF11_EL2", R::AMEVCNTVOFF11_EL2, 0xe6d1),
    ("AMEVCNTVOFF12_EL2", R::AMEVCNTVOFF12_EL2, 0xe6d2),
    ("AMEVCNTVOFF13_EL2", R::AMEVCNTVOFF13_EL2, 0xe6d3),
    ("AMEVCNTVOFF14_EL2", R::AMEVCNTVOFF14_EL2, 0xe6d4),
    ("AMEVCNTVOFF15_EL2", R::AMEVCNTVOFF15_EL2, 0xe6d5),
    ("AMEVCNTVOFF16_EL2", R::AMEVCNTVOFF16_EL2, 0xe6d6),
    ("AMEVCNTVOFF17_EL2", R::AMEVCNTVOFF17_EL2, 0xe6d7),
    ("AMEVCNTVOFF18_EL2", R::AMEVCNTVOFF18_EL2, 0xe6d8),
    ("AMEVCNTVOFF19_EL2", R::AMEVCNTVOFF19_EL2, 0xe6d9),
    ("AMEVCNTVOFF110_EL2", R::AMEVCNTVOFF110_EL2, 0xe6da),
    ("AMEVCNTVOFF111_EL2", R::AMEVCNTVOFF111_EL2, 0xe6db),
    ("AMEVCNTVOFF112_EL2", R::AMEVCNTVOFF112_EL2, 0xe6dc),
    ("AMEVCNTVOFF113_EL2", R::AMEVCNTVOFF113_EL2, 0xe6dd),
    ("AMEVCNTVOFF114_EL2", R::AMEVCNTVOFF114_EL2, 0xe6de),
    ("AMEVCNTVOFF115_EL2", R::AMEVCNTVOFF115_EL2, 0xe6df),
    ("CNTVOFF_EL2", R::CNTVOFF_EL2, 0xe703),
    ("CNTPOFF_EL2", R::CNTPOFF_EL2, 0xe706),
    ("CNTHCTL_EL2", R::CNTHCTL_EL2, 0xe708),
    ("CNTHP_TVAL_EL2", R::CNTHP_TVAL_EL2, 0xe710),
    ("CNTHP_CTL_EL2", R::CNTHP_CTL_EL2, 0xe711),
    ("CNTHP_CVAL_EL2", R::CNTHP_CVAL_EL2, 0xe712),
    ("CNTHV_TVAL_EL2", R::CNTHV_TVAL_EL2, 0xe718),
    ("CNTHV_CTL_EL2", R::CNTHV_CTL_EL2, 0xe719),
    ("CNTHV_CVAL_EL2", R::CNTHV_CVAL_EL2, 0xe71a),
    ("CNTHVS_TVAL_EL2", R::CNTHVS_TVAL_EL2, 0xe720),
    ("CNTHVS_CTL_EL2", R::CNTHVS_CTL_EL2, 0xe721),
    ("CNTHVS_CVAL_EL2", R::CNTHVS_CVAL_EL2, 0xe722),
    ("CNTHPS_TVAL_EL2", R::CNTHPS_TVAL_EL2, 0xe728),
    ("CNTHPS_CTL_EL2", R::CNTHPS_CTL_EL2, 0xe729),
    ("CNTHPS_CVAL_EL2", R::CNTHPS_CVAL_EL2, 0xe72a),
    ("SCTLR_EL3", R::SCTLR_EL3, 0xf080),
    ("ACTLR_EL3", R::ACTLR_EL3, 0xf081),
    ("SCR_EL3", R::SCR_EL3, 0xf088),
    ("SDER32_EL3", R::SDER32_EL3, 0xf089),
    ("CPTR_EL3", R::CPTR_EL3, 0xf08a),
    ("ZCR_EL3", R::ZCR_EL3, 0xf090),
    ("SMCR_EL3", R::SMCR_EL3, 0xf096),
    ("MDCR_EL3", R::MDCR_EL3, 0xf099),
    ("TTBR0_EL3", R::TTBR0_EL3, 0xf100),
    ("TCR_EL3", R::TCR_EL3, 0xf102),
    ("GPTBR_EL3", R::GPTBR_EL3, 0xf10c),
    ("GPCCR_EL3", R::GPCCR_EL3, 0xf10e),
    ("SPSR_EL3", R::SPSR_EL3, 0xf200),
    ("ELR_EL3", R::ELR_EL3, 0xf201),
    ("SP_EL2", R::SP_EL2, 0xf208),
    ("AFSR0_EL3", R::AFSR0_EL3, 0xf288),
    ("AFSR1_EL3", R::AFSR1_EL3, 0xf289),
    ("ESR_EL3", R::ESR_EL3, 0xf290),
    ("TFSR_EL3", R::TFSR_EL3, 0xf2b0),
    ("FAR_EL3", R::FAR_EL3, 0xf300),
    ("MFAR_EL3", R::MFAR_EL3, 0xf305),
    ("MAIR_EL3", R::MAIR_EL3, 0xf510),
    ("AMAIR_EL3", R::AMAIR_EL3, 0xf518),
    ("MPAM3_EL3", R::MPAM3_EL3, 0xf528),
    ("VBAR_EL3", R::VBAR_EL3, 0xf600),
    ("RVBAR_EL3", R::RVBAR_EL3, 0xf601),
    ("RMR_EL3", R::RMR_EL3, 0xf602),
    ("ICC_CTLR_EL3", R::ICC_CTLR_EL3, 0xf664),
    ("ICC_SRE_EL3", R::ICC_SRE_EL3, 0xf665),
    ("ICC_IGRPEN1_EL3", R::ICC_IGRPEN1_EL3, 0xf667),
    ("TPIDR_EL3", R::TPIDR_EL3, 0xf682),
    ("SCXTNUM_EL3", R::SCXTNUM_EL3, 0xf687),
    ("CNTPS_TVAL_EL1", R::CNTPS_TVAL_EL1, 0xff10),
    ("CNTPS_CTL_EL1", R::CNTPS_CTL_EL1, 0xff11),
    ("CNTPS_CVAL_EL1", R::CNTPS_CVAL_EL1, 0xff12),
    ("OSDTRRX_EL1", R::OSDTRRX_EL1, 0x8002),
    ("DBGBVR0_EL1", R::DBGBVR0_EL1, 0x8004),
    ("DBGBCR0_EL1", R::DBGBCR0_EL1, 0x8005),
    ("DBGWVR0_EL1", R::DBGWVR0_EL1, 0x8006),
    ("DBGWCR0_EL1", R::DBGWCR0_EL1, 0x8007),
    ("DBGBVR1_EL1", R::DBGBVR1_EL1, 0x800c),
    ("DBGBCR1_EL1", R::DBGBCR1_EL1, 0x800d),
    ("DBGWVR1_EL1", R::DBGWVR1_EL1, 0x800e),
    ("DBGWCR1_EL1", R::DBGWCR1_EL1, 0x800f),
    ("MDCCINT_EL1", R::MDCCINT_EL1, 0x8010),
    ("MDSCR_EL1", R::MDSCR_EL1, 0x8012),
    ("DBGBVR2_EL1", R::DBGBVR2_EL1, 0x8014),
    ("DBGBCR2_EL1", R::DBGBCR2_EL1, 0x8015),
    ("DBGWVR2_EL1", R::DBGWVR2_EL1, 0x8016),
    ("DBGWCR2_EL1", R::DBGWCR2_EL1, 0x8017),
    ("OSDTRTX_EL1", R::OSDTRTX_EL1, 0x801a),
    ("DBGBVR3_EL1", R::DBGBVR3_EL1, 0x801c),
    ("DBGBCR3_EL1", R::DBGBCR3_EL1, 0x801d),
    ("DBGWVR3_EL1", R::DBGWVR3_EL1, 0x801e),
    ("DBGWCR3_EL1", R::DBGWCR3_EL1, 0x801f),
    ("DBGBVR4_EL1", R::DBGBVR4_EL1, 0x8024),
    ("DBGBCR4_EL1", R::DBGBCR4_EL1, 0x8025),
    ("DBGWVR4_EL1", R::DBGWVR4_EL1, 0x8026),
    ("DBGWCR4_EL1", R::DBGWCR4_EL1, 0x8027),
    ("DBGBVR5_EL1", R::DBGBVR5_EL1, 0x802c),
    ("DBGBCR5_EL1", R::DBGBCR5_EL1, 0x802d),
    ("DBGWVR5_EL1", R::DBGWVR5_EL1, 0x802e),
    ("DBGWCR5_EL1", R::DBGWCR5_EL1, 0x802f),
    ("OSECCR_EL1", R::OSECCR_EL1, 0x8032),
    ("DBGBVR6_EL1", R::DBGBVR6_EL1, 0x8034),
    ("DBGBCR6_EL1", R::DBGBCR6_EL1, 0x8035),
    ("DBGWVR6_EL1", R::DBGWVR6_EL1, 0x8036),
    ("DBGWCR6_EL1", R::DBGWCR6_EL1, 0x8037),
    ("DBGBVR7_EL1", R::DBGBVR7_EL1, 0x803c),
    ("DBGBCR7_EL1", R::DBGBCR7_EL1, 0x803d),
    ("DBGWVR7_EL1", R::DBGWVR7_EL1, 0x803e),
    ("DBGWCR7_EL1", R::DBGWCR7_EL1, 0x803f),
    ("DBGBVR8_EL1", R::DBGBVR8_EL1, 0x8044),
    ("DBGBCR8_EL1", R::DBGBCR8_EL1, 0x8045),
    ("DBGWVR8_EL1", R::DBGWVR8_EL1, 0x8046),
    ("DBGWCR8_EL1", R::DBGWCR8_EL1, 0x8047),
    ("DBGBVR9_EL1", R::DBGBVR9_EL1, 0x804c),
    ("DBGBCR9_EL1", R::DBGBCR9_EL1, 0x804d),
    ("DBGWVR9_EL1", R::DBGWVR9_EL1, 0x804e),
    ("DBGWCR9_EL1", R::DBGWCR9_EL1, 0x804f),
    ("DBGBVR10_EL1", R::DBGBVR10_EL1, 0x8054),
    ("DBGBCR10_EL1", R::DBGBCR10_EL1, 0x8055),
    ("DBGWVR10_EL1", R::DBGWVR10_EL1, 0x8056),
    ("DBGWCR10_EL1", R::DBGWCR10_EL1, 0x8057),
    ("DBGBVR11_EL1", R::DBGBVR11_EL1, 0x805c),
    ("DBGBCR11_EL1", R::DBGBCR11_EL1, 0x805d),
    ("DBGWVR11_EL1", R::DBGWVR11_EL1, 0x805e),
    ("DBGWCR11_EL1", R::DBGWCR11_EL1, 0x805f),
    ("DBGBVR12_EL1", R::DBGBVR12_EL1, 0x8064),
    ("DBGBCR12_EL1", R::DBGBCR12_EL1, 0x8065),
    ("DBGWVR12_EL1", R::DBGWVR12_EL1, 0x8066),
    ("DBGWCR12_EL1", R::DBGWCR12_EL1, 0x8067),
    ("DBGBVR13_EL1", R::DBGBVR13_EL1, 0x806c),
    ("DBGBCR13_EL1", R::DBGBCR13_EL1, 0x806d),
    ("DBGWVR13_EL1", R::DBGWVR13_EL1, 0x806e),
    ("DBGWCR13_EL1", R::DBGWCR13_EL1, 0x806f),
    ("DBGBVR14_EL1", R::DBGBVR14_EL1, 0x8074),
    ("DBGBCR14_EL1", R::DBGBCR14_EL1, 0x8075),
    ("DBGWVR14_EL1", R::DBGWVR14_EL1, 0x8076),
    ("DBGWCR14_EL1", R::DBGWCR14_EL1, 0x8077),
    ("DBGBVR15_EL1", R::DBGBVR15_EL1, 0x807c),
    ("DBGBCR15_EL1", R::DBGBCR15_EL1, 0x807d),
    ("DBGWVR15_EL1", R::DBGWVR15_EL1, 0x807e),
    ("DBGWCR15_EL1", R::DBGWCR15_EL1, 0x807f),
    ("MDRAR_EL1", R::MDRAR_EL1, 0x8080),
    ("OSLAR_EL1", R::OSLAR_EL1, 0x8084),
    ("OSLSR_EL1", R::OSLSR_EL1, 0x808c),
    ("OSDLR_EL1", R::OSDLR_EL1, 0x809c),
    ("DBGPRCR_EL1", R::DBGPRCR_EL1, 0x80a4),
    ("DBGCLAIMSET_EL1", R::DBGCLAIMSET_EL1, 0x83c6),
    ("DBGCLAIMCLR_EL1", R::DBGCLAIMCLR_EL1, 0x83ce),
    ("DBGAUTHSTATUS_EL1", R::DBGAUTHSTATUS_EL1, 0x83f6),
    ("TRCTRACEIDR", R::TRCTRACEIDR, 0x8801),
    ("TRCVICTLR", R::TRCVICTLR, 0x8802),
    ("TRCSEQEVR0", R::TRCSEQEVR0, 0x8804),
    ("TRCCNTRLDVR0", R::TRCCNTRLDVR0, 0x8805),
    ("TRCIDR8", R::TRCIDR8, 0x8806),
    ("TRCIMSPEC0", R::TRCIMSPEC0, 0x8807),
    ("TRCPRGCTLR", R::TRCPRGCTLR, 0x8808),
    ("TRCQCTLR", R::TRCQCTLR, 0x8809),
    ("TRCVIIECTLR", R::TRCVIIECTLR, 0x880a),
    ("TRCSEQEVR1", R::TRCSEQEVR1, 0x880c),
    ("TRCCNTRLDVR1", R::TRCCNTRLDVR1, 0x880d),
    ("TRCIDR9", R::TRCIDR9, 0x880e),
    ("TRCIMSPEC1", R::TRCIMSPEC1, 0x880f),
    ("TRCVISSCTLR", R::TRCVISSCTLR, 0x8812),
    ("TRCSEQEVR2", R::TRCSEQEVR2, 0x8814),
    ("TRCCNTRLDVR2", R::TRCCNTRLDVR2, 0x8815),
    ("TRCIDR10", R::TRCIDR10, 0x8816),
    ("TRCIMSPEC2", R::TRCIMSPEC2, 0x8817),
    ("TRCSTATR", R::TRCSTATR, 0x8818),
    ("TRCVIPCSSCTLR", R::TRCVIPCSSCTLR, 0x881a),
    ("TRCCNTRLDVR3", R::TRCCNTRLDVR3, 0x881d),
    ("TRCIDR11", R::TRCIDR11, 0x881e),
    ("TRCIMSPEC3", R::TRCIMSPEC3, 0x881f),
    ("TRCCONFIGR", R::TRCCONFIGR, 0x8820),
    ("TRCCNTCTLR0", R::TRCCNTCTLR0, 0x8825),
    ("TRCIDR12", R::TRCIDR12, 0x8826),
    ("TRCIMSPEC4", R::TRCIMSPEC4, 0x8827),
    ("TRCCNTCTLR1", R::TRCCNTCTLR1, 0x882d),
    ("TRCIDR13", R::TRCIDR13, 0x882e),
    ("TRCIMSPEC5", R::TRCIMSPEC5, 0x882f),
    ("TRCAUXCTLR", R::TRCAUXCTLR, 0x8830),
    ("TRCSEQRSTEVR", R::TRCSEQRSTEVR, 0x8834),
    ("TRCCNTCTLR2", R::TRCCNTCTLR2, 0x8835),
    ("TRCIMSPEC6", R::TRCIMSPEC6, 0x8837),
    ("TRCSEQSTR", R::TRCSEQSTR, 0x883c),
    ("TRCCNTCTLR3", R::TRCCNTCTLR3, 0x883d),
    ("TRCIMSPEC7", R::TRCIMSPEC7, 0x883f),
    ("TRCEVENTCTL0R", R::TRCEVENTCTL0R, 0x8840),
    ("TRCEXTINSELR0", R::TRCEXTINSELR0, 0x8844),
    ("TRCCNTVR0", R::TRCCNTVR0, 0x8845),
    ("TRCIDR0", R::TRCIDR0, 0x8847),
    ("TRCEVENTCTL1R", R::TRCEVENTCTL1R, 0x8848),
    ("TRCEXTINSELR1", R::TRCEXTINSELR1, 0x884c),
    ("TRCCNTVR1", R::TRCCNTVR1, 0x884d),
    ("TRCIDR1", R::TRCIDR1, 0x884f),
    ("TRCRSR", R::TRCRSR, 0x8850),
    ("TRCEXTINSELR2", R::TRCEXTINSELR2, 0x8854),
    ("TRCCNTVR2", R::TRCCNTVR2, 0x8855),
    ("TRCIDR2", R::TRCIDR2, 0x8857),
    ("TRCSTALLCTLR", R::TRCSTALLCTLR, 0x8858),
    ("TRCEXTINSELR3", R::TRCEXTINSELR3, 0x885c),
    ("TRCCNTVR3", R::TRCCNTVR3, 0x885d),
    ("TRCIDR3", R::TRCIDR3, 0x885f),
    ("TRCTSCTLR", R::TRCTSCTLR, 0x8860),
    ("TRCIDR4", R::TRCIDR4, 0x8867),
    ("TRCSYNCPR", R::TRCSYNCPR, 0x8868),
    ("TRCIDR5", R::TRCIDR5, 0x886f),
    ("TRCCCCTLR", R::TRCCCCTLR, 0x8870),
    ("TRCIDR6", R::TRCIDR6, 0x8877),
    ("TRCBBCTLR", R::TRCBBCTLR, 0x8878),
    ("TRCIDR7", R::TRCIDR7, 0x887f),
    ("TRCRSCTLR16", R::TRCRSCTLR16, 0x8881),
    ("TRCSSCCR0", R::TRCSSCCR0, 0x8882),
    ("TRCSSPCICR0", R::TRCSSPCICR0, 0x8883),
    ("TRCRSCTLR17", R::TRCRSCTLR17, 0x8889),
    ("TRCSSCCR1", R::TRCSSCCR1, 0x888a),
    ("TRCSSPCICR1", R::TRCSSPCICR1, 0x888b),
    ("TRCOSLSR", R::TRCOSLSR, 0x888c),
    ("TRCRSCTLR2", R::TRCRSCTLR2, 0x8890),
    ("TRCRSCTLR18", R::TRCRSCTLR18, 0x8891),
    ("TRCSSCCR2", R::TRCSSCCR2, 0x8892),
    ("TRCSSPCICR2", R::TRCSSPCICR2, 0x8893),
    ("TRCRSCTLR3", R::TRCRSCTLR3, 0x8898),
    ("TRCRSCTLR19", R::TRCRSCTLR19, 0x8899),
    ("TRCSSCCR3", R::TRCSSCCR3, 0x889a),
    ("TRCSSPCICR3", R::TRCSSPCICR3, 0x889b),
    ("TRCRSCTLR4", R::TRCRSCTLR4, 0x88a0),
    ("TRCRSCTLR20", R::TRCRSCTLR20, 0x88a1),
    ("TRCSSCCR4", R::TRCSSCCR4, 0x88a2),
    ("TRCSSPCICR4", R::TRCSSPCICR4, 0x88a3),
    ("TRCRSCTLR5", R::TRCRSCTLR5, 0x88a8),
    ("TRCRSCTLR21", R::TRCRSCTLR21, 0x88a9),
    ("TRCSSCCR5", R::TRCSSCCR5, 0x88aa),
    ("TRCSSPCICR5", R::TRCSSPCICR5, 0x88ab),
    ("TRCRSCTLR6", R::TRCRSCTLR6, 0x88b0),
    ("TRCRSCTLR22", R::TRCRSCTLR22, 0x88b1),
    ("TRCSSCCR6", R::TRCSSCCR6, 0x88b2),
    ("TRCSSPCICR6", R::TRCSSPCICR6, 0x88b3),
    ("TRCRSCTLR7", R::TRCRSCTLR7, 0x88b8),
    ("TRCRSCTLR23", R::TRCRSCTLR23, 0x88b9),
    ("TRCSSCCR7", R::TRCSSCCR7, 0x88ba),
    ("TRCSSPCICR7", R::TRCSSPCICR7, 0x88bb),
    ("TRCRSCTLR8", R::TRCRSCTLR8, 0x88c0),
    ("TRCRSCTLR24", R::TRCRSCTLR24, 0x88c1),
    ("TRCSSCSR0", R::TRCSSCSR0, 0x88c2),
    ("TRCRSCTLR9", R::TRCRSCTLR9, 0x88c8),
    ("TRCRSCTLR25", R::TRCRSCTLR25, 0x88c9),
    ("TRCSSCSR1", R::TRCSSCSR1, 0x88ca),
    ("TRCRSCTLR10", R::TRCRSCTLR10, 0x88d0),
    ("TRCRSCTLR26", R::TRCRSCTLR26, 0x88d1),
    ("TRCSSCSR2", R::TRCSSCSR2, 0x88d2),
    ("TRCRSCTLR11", R::TRCRSCTLR11, 0x88d8),
    ("TRCRSCTLR27", R::TRCRSCTLR27, 0x88d9),
    ("TRCSSCSR3", R::TRCSSCSR3, 0x88da),
    ("TRCRSCTLR12", R::TRCRSCTLR12, 0x88e0),
    ("TRCRSCTLR28", R::TRCRSCTLR28, 0x88e1),
    ("TRCSSCSR4", R::TRCSSCSR4, 0x88e2),
    ("TRCRSCTLR13", R::TRCRSCTLR13, 0x88e8),
    ("TRCRSCTLR29", R::TRCRSCTLR29, 0x88e9),
    ("TRCSSCSR5", R::TRCSSCSR5, 0x88ea),
    ("TRCRSCTLR14", R::TRCRSCTLR14, 0x88f0),
    ("TRCRSCTLR30", R::TRCRSCTLR30, 0x88f1),
    ("TRCSSCSR6", R::TRCSSCSR6, 0x88f2),
    ("TRCRSCTLR15", R::TRCRSCTLR15, 0x88f8),
    ("TRCRSCTLR31", R::TRCRSCTLR31, 0x88f9),
    ("TRCSSCSR7", R::TRCSSCSR7, 0x88fa),
    ("TRCACVR0", R::TRCACVR0, 0x8900),
    ("TRCACVR8", R::TRCACVR8, 0x8901),
    ("TRCACATR0", R::TRCACATR0, 0x8902),
    ("TRCACATR8", R::TRCACATR8, 0x8903),
    ("TRCACVR1", R::TRCACVR1, 0x8910),
    ("TRCACVR9", R::TRCACVR9, 0x8911),
    ("TRCACATR1", R::TRCACATR1, 0x8912),
    ("TRCACATR9", R::TRCACATR9, 0x8913),
    ("TRCACVR2", R::TRCACVR2, 0x8920),
    ("TRCACVR10", R::TRCACVR10, 0x8921),
    ("TRCACATR2", R::TRCACATR2, 0x8922),
    ("TRCACATR10", R::TRCACATR10, 0x8923),
    ("TRCACVR3", R::TRCACVR3, 0x8930),
    ("TRCACVR11", R::TRCACVR11, 0x8931),
    ("TRCACATR3", R::TRCACATR3, 0x8932),
    ("TRCACATR11", R::TRCACATR11, 0x8933),
    ("TRCACVR4", R::TRCACVR4, 0x8940),
    ("TRCACVR12", R::TRCACVR12, 0x8941),
    ("TRCACATR4", R::TRCACATR4, 0x8942),
    ("TRCACATR12", R::TRCACATR12, 0x8943),
    ("TRCACVR5", R::TRCACVR5, 0x8950),
    ("TRCACVR13", R::TRCACVR13, 0x8951),
    ("TRCACATR5", R::TRCACATR5, 0x8952),
    ("TRCACATR13", R::TRCACATR13, 0x8953),
    ("TRCACVR6", R::TRCACVR6, 0x8960),
    ("TRCACVR14", R::TRCACVR14, 0x8961),
    ("TRCACATR6", R::TRCACATR6, 0x8962),
    ("TRCACATR14", R::TRCACATR14, 0x8963),
    ("TRCACVR7", R::TRCACVR7, 0x8970),
    ("TRCACVR15", R::TRCACVR15, 0x8971),
    ("TRCACATR7", R::TRCACATR7, 0x8972),
    ("TRCACATR15", R::TRCACATR15, 0x8973),
    ("TRCCIDCVR0", R::TRCCIDCVR0, 0x8980),
    ("TRCVMIDCVR0", R::TRCVMIDCVR0, 0x8981),
    ("TRCCIDCCTLR0", R::TRCCIDCCTLR0, 0x8982),
    ("TRCCIDCCTLR1", R::TRCCIDCCTLR1, 0x898a),
    ("TRCCIDCVR1", R::TRCCIDCVR1, 0x8990),
    ("TRCVMIDCVR1", R::TRCVMIDCVR1, 0x8991),
    ("TRCVMIDCCTLR0", R::TRCVMIDCCTLR0, 0x8992),
    ("TRCVMIDCCTLR1", R::TRCVMIDCCTLR1, 0x899a),
    ("TRCCIDCVR2", R::TRCCIDCVR2, 0x89a0),
    ("TRCVMIDCVR2", R::TRCVMIDCVR2, 0x89a1),
    ("TRCCIDCVR3", R::TRCCIDCVR3, 0x89b0),
    ("TRCVMIDCVR3", R::TRCVMIDCVR3, 0x89b1),
    ("TRCCIDCVR4", R::TRCCIDCVR4, 0x89c0),
    ("TRCVMIDCVR4", R::TRCVMIDCVR4, 0x89c1),
    ("TRCCIDCVR5", R::TRCCIDCVR5, 0x89d0),
    ("TRCVMIDCVR5", R::TRCVMIDCVR5, 0x89d1),
    ("TRCCIDCVR6", R::TRCCIDCVR6, 0x89e0),
    ("TRCVMIDCVR6", R::TRCVMIDCVR6, 0x89e1),
    ("TRCCIDCVR7", R::TRCCIDCVR7, 0x89f0),
    ("TRCVMIDCVR7", R::TRCVMIDCVR7, 0x89f1),
    ("TRCDEVID", R::TRCDEVID, 0x8b97),
    ("TRCCLAIMSET", R::TRCCLAIMSET, 0x8bc6),
    ("TRCCLAIMCLR", R::TRCCLAIMCLR, 0x8bce),
    ("TRCAUTHSTATUS", R::TRCAUTHSTATUS, 0x8bf6),
    ("TRCDEVARCH", R::TRCDEVARCH, 0x8bfe),
    ("BRBINF0_EL1", R::BRBINF0_EL1, 0x8c00),
    ("BRBSRC0_EL1", R::BRBSRC0_EL1, 0x8c01),
    ("BRBTGT0_EL1", R::BRBTGT0_EL1, 0x8c02),
    ("BRBINF16_EL1", R::BRBINF16_EL1, 0x8c04),
    ("BRBSRC16_EL1", R::BRBSRC16_EL1, 0x8c05),
    ("BRBTGT16_EL1", R::BRBTGT16_EL1, 0x8c06),
    ("BRBINF1_EL1", R::BRBINF1_EL1, 0x8c08),
    ("BRBSRC1_EL1", R::BRBSRC1_EL1, 0x8c09),
    ("BRBTGT1_EL1", R::BRBTGT1_EL1, 0x8c0a),
    ("BRBINF17_EL1", R::BRBINF17_EL1, 0x8c0c),
    ("BRBSRC17_EL1", R::BRBSRC17_EL1, 0x8c0d),
    ("BRBTGT17_EL1", R::BRBTGT17_EL1, 0x8c0e),
    ("BRBINF2_EL1", R::BRBINF2_EL1, 0x8c10),
    ("BRBSRC2_EL1", R::BRBSRC2_EL1, 0x8c11),
    ("BRBTGT2_EL1", R::BRBTGT2_EL1, 0x8c12),
    ("BRBINF18_EL1", R::BRBINF18_EL1, 0x8c14),
    ("BRBSRC18_EL1", R::BRBSRC18_EL1, 0x8c15),
    ("BRBTGT18_EL1", R::BRBTGT18_EL1, 0x8c16),
    ("BRBINF3_EL1", R::BRBINF3_EL1, 0x8c18),
    ("BRBSRC3_EL1", R::BRBSRC3_EL1, 0x8c19),
    ("BRBTGT3_EL1", R::BRBTGT3_EL1, 0x8c1a),
    ("BRBINF19_EL1", R::BRBINF19_EL1, 0x8c1c),
    ("BRBSRC19_EL1", R::BRBSRC19_EL1, 0x8c1d),
    ("BRBTGT19_EL1", R::BRBTGT19_EL1, 0x8c1e),
    ("BRBINF4_EL1", R::BRBINF4_EL1, 0x8c20),
    ("BRBSRC4_EL1", R::BRBSRC4_EL1, 0x8c21),
    ("BRBTGT4_EL1", R::BRBTGT4_EL1, 0x8c22),
    ("BRBINF20_EL1", R::BRBINF20_EL1, 0x8c24),
    ("BRBSRC20_EL1", R::BRBSRC20_EL1, 0x8c25),
    ("BRBTGT20_EL1", R::BRBTGT20_EL1, 0x8c26),
    ("BRBINF5_EL1", R::BRBINF5_EL1, 0x8c28),
    ("BRBSRC5_EL1", R::BRBSRC5_EL1, 0x8c29),
    ("BRBTGT5_EL1", R::BRBTGT5_EL1, 0x8c2a),
    ("BRBINF21_EL1", R::BRBINF21_EL1, 0x8c2c),
    ("BRBSRC21_EL1", R::BRBSRC21_EL1, 0x8c2d),
    ("BRBTGT21_EL1", R::BRBTGT21_EL1, 0x8c2e),
    ("BRBINF6_EL1", R::BRBINF6_EL1, 0x8c30),
    ("BRBSRC6_EL1", R::BRBSRC6_EL1, 0x8c31),
    ("BRBTGT6_EL1", R::BRBTGT6_EL1, 0x8c32),
    ("BRBINF22_EL1", R::BRBINF22_EL1, 0x8c34),
    ("BRBSRC22_EL1", R::BRBSRC22_EL1, 0x8c35),
    ("BRBTGT22_EL1", R::BRBTGT22_EL1, 0x8c36),
    ("BRBINF7_EL1", R::BRBINF7_EL1, 0x8c38),
    ("BRBSRC7_EL1", R::BRBSRC7_EL1, 0x8c39),
    ("BRBTGT7_EL1", R::BRBTGT7_EL1, 0x8c3a),
    ("BRBINF23_EL1", R::BRBINF23_EL1, 0x8c3c),
    ("BRBSRC23_EL1", R::BRBSRC23_EL1, 0x8c3d),
    ("BRBTGT23_EL1", R::BRBTGT23_EL1, 0x8c3e),
    ("BRBINF8_EL1", R::BRBINF8_EL1, 0x8c40),
    ("BRBSRC8_EL1", R::BRBSRC8_EL1, 0x8c41),
    ("BRBTGT8_EL1", R::BRBTGT8_EL1, 0x8c42),
    ("BRBINF24_EL1", R::BRBINF24_EL1, 0x8c44),
    ("BRBSRC24_EL1", R::BRBSRC24_EL1, 0x8c45),
    ("BRBTGT24_EL1", R::BRBTGT24_EL1, 0x8c46),
    ("BRBINF9_EL1", R::BRBINF9_EL1, 0x8c48),
    ("BRBSRC9_EL1", R::BRBSRC9_EL1, 0x8c49),
    ("BRBTGT9_EL1", R::BRBTGT9_EL1, 0x8c4a),
    ("BRBINF25_EL1", R::BRBINF25_EL1, 0x8c4c),
    ("BRBSRC25_EL1", R::BRBSRC25_EL1, 0x8c4d),
    ("BRBTGT25_EL1", R::BRBTGT25_EL1, 0x8c4e),
    ("BRBINF10_EL1", R::BRBINF10_EL1, 0x8c50),
    ("BRBSRC10_EL1", R::BRBSRC10_EL1, 0x8c51),
    ("BRBTGT10_EL1", R::BRBTGT10_EL1, 0x8c52),
    ("BRBINF26_EL1", R::BRBINF26_EL1, 0x8c54),
    ("BRBSRC26_EL1", R::BRBSRC26_EL1, 0x8c55),
    ("BRBTGT26_EL1", R::BRBTGT26_EL1, 0x8c56),
    ("BRBINF11_EL1", R::BRBINF11_EL1, 0x8c58),
    ("BRBSRC11_EL1", R::BRBSRC11_EL1, 0x8c59),
    ("BRBTGT11_EL1", R::BRBTGT11_EL1, 0x8c5a),
    ("BRBINF27_EL1", R::BRBINF27_EL1, 0x8c5c),
    ("BRBSRC27_EL1", R::BRBSRC27_EL1, 0x8c5d),
    ("BRBTGT27_EL1", R::BRBTGT27_EL1, 0x8c5e),
    ("BRBINF12_EL1", R::BRBINF12_EL1, 0x8c60),
    ("BRBSRC12_EL1", R::BRBSRC12_EL1, 0x8c61),
    ("BRBTGT12_EL1", R::BRBTGT12_EL1, 0x8c62),
    ("BRBINF28_EL1", R::BRBINF28_EL1, 0x8c64),
    ("BRBSRC28_EL1", R::BRBSRC28_EL1, 0x8c65),
    ("BRBTGT28_EL1", R::BRBTGT28_EL1, 0x8c66),
    ("BRBINF13_EL1", R::BRBINF13_EL1, 0x8c68),
    ("BRBSRC13_EL1", R::BRBSRC13_EL1, 0x8c69),
    ("BRBTGT13_EL1", R::BRBTGT13_EL1, 0x8c6a),
    ("BRBINF29_EL1", R::BRBINF29_EL1, 0x8c6c),
    ("BRBSRC29_EL1", R::BRBSRC29_EL1, 0x8c6d),
    ("BRBTGT29_EL1", R::BRBTGT29_EL1, 0x8c6e),
    ("BRBINF14_EL1", R::BRBINF14_EL1, 0x8c70),
    ("BRBSRC14_EL1", R::BRBSRC14_EL1, 0x8c71),
    ("BRBTGT14_EL1", R::BRBTGT14_EL1, 0x8c72),
    ("BRBINF30_EL1", R::BRBINF30_EL1, 0x8c74),
    ("BRBSRC30_EL1", R::BRBSRC30_EL1, 0x8c75),
    ("BRBTGT30_EL1", R::BRBTGT30_EL1, 0x8c76),
    ("BRBINF15_EL1", R::BRBINF15_EL1, 0x8c78),
    ("BRBSRC15_EL1", R::BRBSRC15_EL1, 0x8c79),
    ("BRBTGT15_EL1", R::BRBTGT15_EL1, 0x8c7a),
    ("BRBINF31_EL1", R::BRBINF31_EL1, 0x8c7c),
    ("BRBSRC31_EL1", R::BRBSRC31_EL1, 0x8c7d),
    ("BRBTGT31_EL1", R::BRBTGT31_EL1, 0x8c7e),
    ("BRBCR_EL1", R::BRBCR_EL1, 0x8c80),
    ("BRBCR_EL2", R::BRBCR_EL2, 0xa480),
    ("BRBFCR_EL1", R::BRBFCR_EL1, 0x8c81),
    ("BRBTS_EL1", R::BRBTS_EL1, 0x8c82),
    ("BRBINFINJ_EL1", R::BRBINFINJ_EL1, 0x8c88),
    ("BRBSRCINJ_EL1", R::BRBSRCINJ_EL1, 0x8c89),
    ("BRBTGTINJ_EL1", R::BRBTGTINJ_EL1, 0x8c8a),
    ("BRBIDR0_EL1", R::BRBIDR0_EL1, 0x8c90),
    ("MDCCSR_EL0", R::MDCCSR_EL0, 0x9808),
    ("DBGDTR_EL0", R::DBGDTR_EL0, 0x9820),
    ("DBGDTRRX_EL0", R::DBGDTRRX_EL0, 0x9828),
    ("DBGDTRTX_EL0", R::DBGDTRTX_EL0, 0x9828),
    ("DBGVCR32_EL2", R::DBGVCR32_EL2, 0xa038),
];
