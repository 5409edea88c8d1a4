// the named AArch64 system registers
use gdbstub_arch::aarch64::reg::id::AArch64RegId as R;
pub static CONSTS: &[(&str, R)] = &[
    ("MIDR_EL1", R::MIDR_EL1),
    ("MPIDR_EL1", R::MPIDR_EL1),
    ("REVIDR_EL1", R::REVIDR_EL1),
    ("ID_PFR0_EL1", R::ID_PFR0_EL1),
    ("ID_PFR1_EL1", R::ID_PFR1_EL1),
    ("ID_DFR0_EL1", R::ID_DFR0_EL1),
    ("ID_AFR0_EL1", R::ID_AFR0_EL1),
    ("ID_MMFR0_EL1", R::ID_MMFR0_EL1),
    ("ID_MMFR1_EL1", R::ID_MMFR1_EL1),
    ("ID_MMFR2_EL1", R::ID_MMFR2_EL1),
    ("ID_MMFR3_EL1", R::ID_MMFR3_EL1),
    ("ID_ISAR0_EL1", R::ID_ISAR0_EL1),
    ("ID_ISAR1_EL1", R::ID_ISAR1_EL1),
    ("ID_ISAR2_EL1", R::ID_ISAR2_EL1),
    ("ID_ISAR3_EL1", R::ID_ISAR3_EL1),
    ("ID_ISAR4_EL1", R::ID_ISAR4_EL1),
    ("ID_ISAR5_EL1", R::ID_ISAR5_EL1),
    ("ID_MMFR4_EL1", R::ID_MMFR4_EL1),
    ("ID_ISAR6_EL1", R::ID_ISAR6_EL1),
    ("MVFR0_EL1", R::MVFR0_EL1),
    ("MVFR1_EL1", R::MVFR1_EL1),
    ("MVFR2_EL1", R::MVFR2_EL1),
    ("ID_PFR2_EL1", R::ID_PFR2_EL1),
    ("ID_DFR1_EL1", R::ID_DFR1_EL1),
    ("ID_MMFR5_EL1", R::ID_MMFR5_EL1),
    ("ID_AA64PFR0_EL1", R::ID_AA64PFR0_EL1),
    ("ID_AA64PFR1_EL1", R::ID_AA64PFR1_EL1),
    ("ID_AA64ZFR0_EL1", R::ID_AA64ZFR0_EL1),
    ("ID_AA64SMFR0_EL1", R::ID_AA64SMFR0_EL1),
    ("ID_AA64DFR0_EL1", R::ID_AA64DFR0_EL1),
    ("ID_AA64DFR1_EL1", R::ID_AA64DFR1_EL1),
    ("ID_AA64AFR0_EL1", R::ID_AA64AFR0_EL1),
    ("ID_AA64AFR1_EL1", R::ID_AA64AFR1_EL1),
    ("ID_AA64ISAR0_EL1", R::ID_AA64ISAR0_EL1),
    ("ID_AA64ISAR1_EL1", R::ID_AA64ISAR1_EL1),
    ("ID_AA64ISAR2_EL1", R::ID_AA64ISAR2_EL1),
    ("ID_AA64MMFR0_EL1", R::ID_AA64MMFR0_EL1),
    ("ID_AA64MMFR1_EL1", R::ID_AA64MMFR1_EL1),
    ("ID_AA64MMFR2_EL1", R::ID_AA64MMFR2_EL1),
    ("SCTLR_EL1", R::SCTLR_EL1),
    ("ACTLR_EL1", R::ACTLR_EL1),
    ("CPACR_EL1", R::CPACR_EL1),
    ("RGSR_EL1", R::RGSR_EL1),
    ("GCR_EL1", R::GCR_EL1),
    ("ZCR_EL1", R::ZCR_EL1),
    ("TRFCR_EL1", R::TRFCR_EL1),
    ("SMPRI_EL1", R::SMPRI_EL1),
    ("SMCR_EL1", R::SMCR_EL1),
    ("TTBR0_EL1", R::TTBR0_EL1),
    ("TTBR1_EL1", R::TTBR1_EL1),
    ("TCR_EL1", R::TCR_EL1),
    ("APIAKEYLO_EL1", R::APIAKEYLO_EL1),
    ("APIAKEYHI_EL1", R::APIAKEYHI_EL1),
    ("APIBKEYLO_EL1", R::APIBKEYLO_EL1),
    ("APIBKEYHI_EL1", R::APIBKEYHI_EL1),
    ("APDAKEYLO_EL1", R::APDAKEYLO_EL1),
    ("APDAKEYHI_EL1", R::APDAKEYHI_EL1),
    ("APDBKEYLO_EL1", R::APDBKEYLO_EL1),
    ("APDBKEYHI_EL1", R::APDBKEYHI_EL1),
    ("APGAKEYLO_EL1", R::APGAKEYLO_EL1),
    ("APGAKEYHI_EL1", R::APGAKEYHI_EL1),
    ("SPSR_EL1", R::SPSR_EL1),
    ("ELR_EL1", R::ELR_EL1),
    ("SP_EL0", R::SP_EL0),
    ("ICC_PMR_EL1", R::ICC_PMR_EL1),
    ("ICV_PMR_EL1", R::ICV_PMR_EL1),
    ("AFSR0_EL1", R::AFSR0_EL1),
    ("AFSR1_EL1", R::AFSR1_EL1),
    ("ESR_EL1", R::ESR_EL1),
    ("ERRIDR_EL1", R::ERRIDR_EL1),
    ("ERRSELR_EL1", R::ERRSELR_EL1),
    ("ERXFR_EL1", R::ERXFR_EL1),
    ("ERXCTLR_EL1", R::ERXCTLR_EL1),
    ("ERXSTATUS_EL1", R::ERXSTATUS_EL1),
    ("ERXADDR_EL1", R::ERXADDR_EL1),
    ("ERXPFGF_EL1", R::ERXPFGF_EL1),
    ("ERXPFGCTL_EL1", R::ERXPFGCTL_EL1),
    ("ERXPFGCDN_EL1", R::ERXPFGCDN_EL1),
    ("ERXMISC0_EL1", R::ERXMISC0_EL1),
    ("ERXMISC1_EL1", R::ERXMISC1_EL1),
    ("ERXMISC2_EL1", R::ERXMISC2_EL1),
    ("ERXMISC3_EL1", R::ERXMISC3_EL1),
    ("TFSR_EL1", R::TFSR_EL1),
    ("TFSRE0_EL1", R::TFSRE0_EL1),
    ("FAR_EL1", R::FAR_EL1),
    ("PAR_EL1", R::PAR_EL1),
    ("PMSCR_EL1", R::PMSCR_EL1),
    ("PMSNEVFR_EL1", R::PMSNEVFR_EL1),
    ("PMSICR_EL1", R::PMSICR_EL1),
    ("PMSIRR_EL1", R::PMSIRR_EL1),
    ("PMSFCR_EL1", R::PMSFCR_EL1),
    ("PMSEVFR_EL1", R::PMSEVFR_EL1),
    ("PMSLATFR_EL1", R::PMSLATFR_EL1),
    ("PMSIDR_EL1", R::PMSIDR_EL1),
    ("PMBLIMITR_EL1", R::PMBLIMITR_EL1),
    ("PMBPTR_EL1", R::PMBPTR_EL1),
    ("PMBSR_EL1", R::PMBSR_EL1),
    ("PMBIDR_EL1", R::PMBIDR_EL1),
    ("TRBLIMITR_EL1", R::TRBLIMITR_EL1),
    ("TRBPTR_EL1", R::TRBPTR_EL1),
    ("TRBBASER_EL1", R::TRBBASER_EL1),
    ("TRBSR_EL1", R::TRBSR_EL1),
    ("TRBMAR_EL1", R::TRBMAR_EL1),
    ("TRBTRG_EL1", R::TRBTRG_EL1),
    ("TRBIDR_EL1", R::TRBIDR_EL1),
    ("PMINTENSET_EL1", R::PMINTENSET_EL1),
    ("PMINTENCLR_EL1", R::PMINTENCLR_EL1),
    ("PMMIR_EL1", R::PMMIR_EL1),
    ("MAIR_EL1", R::MAIR_EL1),
    ("AMAIR_EL1", R::AMAIR_EL1),
    ("LORSA_EL1", R::LORSA_EL1),
    ("LOREA_EL1", R::LOREA_EL1),
    ("LORN_EL1", R::LORN_EL1),
    ("LORC_EL1", R::LORC_EL1),
    ("MPAMIDR_EL1", R::MPAMIDR_EL1),
    ("LORID_EL1", R::LORID_EL1),
    ("MPAM1_EL1", R::MPAM1_EL1),
    ("MPAM0_EL1", R::MPAM0_EL1),
    ("MPAMSM_EL1", R::MPAMSM_EL1),
    ("VBAR_EL1", R::VBAR_EL1),
    ("RVBAR_EL1", R::RVBAR_EL1),
    ("RMR_EL1", R::RMR_EL1),
    ("ISR_EL1", R::ISR_EL1),
    ("DISR_EL1", R::DISR_EL1),
    ("ICC_IAR0_EL1", R::ICC_IAR0_EL1),
    ("ICV_IAR0_EL1", R::ICV_IAR0_EL1),
    ("ICC_EOIR0_EL1", R::ICC_EOIR0_EL1),
    ("ICV_EOIR0_EL1", R::ICV_EOIR0_EL1),
    ("ICC_HPPIR0_EL1", R::ICC_HPPIR0_EL1),
    ("ICV_HPPIR0_EL1", R::ICV_HPPIR0_EL1),
    ("ICC_BPR0_EL1", R::ICC_BPR0_EL1),
    ("ICV_BPR0_EL1", R::ICV_BPR0_EL1),
    ("ICC_AP0R0_EL1", R::ICC_AP0R0_EL1),
    ("ICV_AP0R0_EL1", R::ICV_AP0R0_EL1),
    ("ICC_AP0R1_EL1", R::ICC_AP0R1_EL1),
    ("ICV_AP0R1_EL1", R::ICV_AP0R1_EL1),
    ("ICC_AP0R2_EL1", R::ICC_AP0R2_EL1),
    ("ICV_AP0R2_EL1", R::ICV_AP0R2_EL1),
    ("ICC_AP0R3_EL1", R::ICC_AP0R3_EL1),
    ("ICV_AP0R3_EL1", R::ICV_AP0R3_EL1),
    ("ICC_AP1R0_EL1", R::ICC_AP1R0_EL1),
    ("ICV_AP1R0_EL1", R::ICV_AP1R0_EL1),
    ("ICC_AP1R1_EL1", R::ICC_AP1R1_EL1),
    ("ICV_AP1R1_EL1", R::ICV_AP1R1_EL1),
    ("ICC_AP1R2_EL1", R::ICC_AP1R2_EL1),
    ("ICV_AP1R2_EL1", R::ICV_AP1R2_EL1),
    ("ICC_AP1R3_EL1", R::ICC_AP1R3_EL1),
    ("ICV_AP1R3_EL1", R::ICV_AP1R3_EL1),
    ("ICC_NMIAR1_EL1", R::ICC_NMIAR1_EL1),
    ("ICV_NMIAR1_EL1", R::ICV_NMIAR1_EL1),
    ("ICC_DIR_EL1", R::ICC_DIR_EL1),
    ("ICV_DIR_EL1", R::ICV_DIR_EL1),
    ("ICC_RPR_EL1", R::ICC_RPR_EL1),
    ("ICV_RPR_EL1", R::ICV_RPR_EL1),
    ("ICC_SGI1R_EL1", R::ICC_SGI1R_EL1),
    ("ICC_ASGI1R_EL1", R::ICC_ASGI1R_EL1),
    ("ICC_SGI0R_EL1", R::ICC_SGI0R_EL1),
    ("ICC_IAR1_EL1", R::ICC_IAR1_EL1),
    ("ICV_IAR1_EL1", R::ICV_IAR1_EL1),
    ("ICC_EOIR1_EL1", R::ICC_EOIR1_EL1),
    ("ICV_EOIR1_EL1", R::ICV_EOIR1_EL1),
    ("ICC_HPPIR1_EL1", R::ICC_HPPIR1_EL1),
    ("ICV_HPPIR1_EL1", R::ICV_HPPIR1_EL1),
    ("ICC_BPR1_EL1", R::ICC_BPR1_EL1),
    ("ICV_BPR1_EL1", R::ICV_BPR1_EL1),
    ("ICC_CTLR_EL1", R::ICC_CTLR_EL1),
    ("ICV_CTLR_EL1", R::ICV_CTLR_EL1),
    ("ICC_SRE_EL1", R::ICC_SRE_EL1),
    ("ICC_IGRPEN0_EL1", R::ICC_IGRPEN0_EL1),
    ("ICV_IGRPEN0_EL1", R::ICV_IGRPEN0_EL1),
    ("ICC_IGRPEN1_EL1", R::ICC_IGRPEN1_EL1),
    ("ICV_IGRPEN1_EL1", R::ICV_IGRPEN1_EL1),
    ("CONTEXTIDR_EL1", R::CONTEXTIDR_EL1),
    ("TPIDR_EL1", R::TPIDR_EL1),
    ("ACCDATA_EL1", R::ACCDATA_EL1),
    ("SCXTNUM_EL1", R::SCXTNUM_EL1),
    ("CNTKCTL_EL1", R::CNTKCTL_EL1),
    ("CCSIDR_EL1", R::CCSIDR_EL1),
    ("CLIDR_EL1", R::CLIDR_EL1),
    ("CCSIDR2_EL1", R::CCSIDR2_EL1),
    ("GMID_EL1", R::GMID_EL1),
    ("SMIDR_EL1", R::SMIDR_EL1),
    ("AIDR_EL1", R::AIDR_EL1),
    ("CSSELR_EL1", R::CSSELR_EL1),
    ("CTR_EL0", R::CTR_EL0),
    ("DCZID_EL0", R::DCZID_EL0),
    ("RNDR", R::RNDR),
    ("RNDRRS", R::RNDRRS),
    ("SVCR", R::SVCR),
    ("FPCR", R::FPCR),
    ("FPSR", R::FPSR),
    ("DSPSR_EL0", R::DSPSR_EL0),
    ("DLR_EL0", R::DLR_EL0),
    ("PMCR_EL0", R::PMCR_EL0),
    ("PMCNTENSET_EL0", R::PMCNTENSET_EL0),
    ("PMCNTENCLR_EL0", R::PMCNTENCLR_EL0),
    ("PMOVSCLR_EL0", R::PMOVSCLR_EL0),
    ("PMSWINC_EL0", R::PMSWINC_EL0),
    ("PMSELR_EL0", R::PMSELR_EL0),
    ("PMCEID0_EL0", R::PMCEID0_EL0),
    ("PMCEID1_EL0", R::PMCEID1_EL0),
    ("PMCCNTR_EL0", R::PMCCNTR_EL0),
    ("PMXEVTYPER_EL0", R::PMXEVTYPER_EL0),
    ("PMXEVCNTR_EL0", R::PMXEVCNTR_EL0),
    ("PMUSERENR_EL0", R::PMUSERENR_EL0),
    ("PMOVSSET_EL0", R::PMOVSSET_EL0),
    ("TPIDR_EL0", R::TPIDR_EL0),
    ("TPIDRRO_EL0", R::TPIDRRO_EL0),
    ("TPIDR2_EL0", R::TPIDR2_EL0),
    ("SCXTNUM_EL0", R::SCXTNUM_EL0),
    ("AMCR_EL0", R::AMCR_EL0),
    ("AMCFGR_EL0", R::AMCFGR_EL0),
    ("AMCGCR_EL0", R::AMCGCR_EL0),
    ("AMUSERENR_EL0", R::AMUSERENR_EL0),
    ("AMCNTENCLR0_EL0", R::AMCNTENCLR0_EL0),
    ("AMCNTENSET0_EL0", R::AMCNTENSET0_EL0),
    ("AMCG1IDR_EL0", R::AMCG1IDR_EL0),
    ("AMCNTENCLR1_EL0", R::AMCNTENCLR1_EL0),
    ("AMCNTENSET1_EL0", R::AMCNTENSET1_EL0),
    ("AMEVCNTR00_EL0", R::AMEVCNTR00_EL0),
    ("AMEVCNTR01_EL0", R::AMEVCNTR01_EL0),
    ("AMEVCNTR02_EL0", R::AMEVCNTR02_EL0),
    ("AMEVCNTR03_EL0", R::AMEVCNTR03_EL0),
    ("AMEVTYPER00_EL0", R::AMEVTYPER00_EL0),
    ("AMEVTYPER01_EL0", R::AMEVTYPER01_EL0),
    ("AMEVTYPER02_EL0", R::AMEVTYPER02_EL0),
    ("AMEVTYPER03_EL0", R::AMEVTYPER03_EL0),
    ("AMEVCNTR10_EL0", R::AMEVCNTR10_EL0),
    ("AMEVCNTR11_EL0", R::AMEVCNTR11_EL0),
    ("AMEVCNTR12_EL0", R::AMEVCNTR12_EL0),
    ("AMEVCNTR13_EL0", R::AMEVCNTR13_EL0),
    ("AMEVCNTR14_EL0", R::AMEVCNTR14_EL0),
    ("AMEVCNTR15_EL0", R::AMEVCNTR15_EL0),
    ("AMEVCNTR16_EL0", R::AMEVCNTR16_EL0),
    ("AMEVCNTR17_EL0", R::AMEVCNTR17_EL0),
    ("AMEVCNTR18_EL0", R::AMEVCNTR18_EL0),
    ("AMEVCNTR19_EL0", R::AMEVCNTR19_EL0),
    ("AMEVCNTR110_EL0", R::AMEVCNTR110_EL0),
    ("AMEVCNTR111_EL0", R::AMEVCNTR111_EL0),
    ("AMEVCNTR112_EL0", R::AMEVCNTR112_EL0),
    ("AMEVCNTR113_EL0", R::AMEVCNTR113_EL0),
    ("AMEVCNTR114_EL0", R::AMEVCNTR114_EL0),
    ("AMEVCNTR115_EL0", R::AMEVCNTR115_EL0),
    ("AMEVTYPER10_EL0", R::AMEVTYPER10_EL0),
    ("AMEVTYPER11_EL0", R::AMEVTYPER11_EL0),
    ("AMEVTYPER12_EL0", R::AMEVTYPER12_EL0),
    ("AMEVTYPER13_EL0", R::AMEVTYPER13_EL0),
    ("AMEVTYPER14_EL0", R::AMEVTYPER14_EL0),
    ("AMEVTYPER15_EL0", R::AMEVTYPER15_EL0),
    ("AMEVTYPER16_EL0", R::AMEVTYPER16_EL0),
    ("AMEVTYPER17_EL0", R::AMEVTYPER17_EL0),
    ("AMEVTYPER18_EL0", R::AMEVTYPER18_EL0),
    ("AMEVTYPER19_EL0", R::AMEVTYPER19_EL0),
    ("AMEVTYPER110_EL0", R::AMEVTYPER110_EL0),
    ("AMEVTYPER111_EL0", R::AMEVTYPER111_EL0),
    ("AMEVTYPER112_EL0", R::AMEVTYPER112_EL0),
    ("AMEVTYPER113_EL0", R::AMEVTYPER113_EL0),
    ("AMEVTYPER114_EL0", R::AMEVTYPER114_EL0),
    ("AMEVTYPER115_EL0", R::AMEVTYPER115_EL0),
    ("CNTFRQ_EL0", R::CNTFRQ_EL0),
    ("CNTPCT_EL0", R::CNTPCT_EL0),
    ("CNTVCT_EL0", R::CNTVCT_EL0),
    ("CNTPCTSS_EL0", R::CNTPCTSS_EL0),
    ("CNTVCTSS_EL0", R::CNTVCTSS_EL0),
    ("CNTP_TVAL_EL0", R::CNTP_TVAL_EL0),
    ("CNTP_CTL_EL0", R::CNTP_CTL_EL0),
    ("CNTP_CVAL_EL0", R::CNTP_CVAL_EL0),
    ("CNTV_TVAL_EL0", R::CNTV_TVAL_EL0),
    ("CNTV_CTL_EL0", R::CNTV_CTL_EL0),
    ("CNTV_CVAL_EL0", R::CNTV_CVAL_EL0),
    ("PMEVCNTR0_EL0", R::PMEVCNTR0_EL0),
    ("PMEVCNTR1_EL0", R::PMEVCNTR1_EL0),
    ("PMEVCNTR2_EL0", R::PMEVCNTR2_EL0),
    ("PMEVCNTR3_EL0", R::PMEVCNTR3_EL0),
    ("PMEVCNTR4_EL0", R::PMEVCNTR4_EL0),
    ("PMEVCNTR5_EL0", R::PMEVCNTR5_EL0),
    ("PMEVCNTR6_EL0", R::PMEVCNTR6_EL0),
    ("PMEVCNTR7_EL0", R::PMEVCNTR7_EL0),
    ("PMEVCNTR8_EL0", R::PMEVCNTR8_EL0),
    ("PMEVCNTR9_EL0", R::PMEVCNTR9_EL0),
    ("PMEVCNTR10_EL0", R::PMEVCNTR10_EL0),
    ("PMEVCNTR11_EL0", R::PMEVCNTR11_EL0),
    ("PMEVCNTR12_EL0", R::PMEVCNTR12_EL0),
    ("PMEVCNTR13_EL0", R::PMEVCNTR13_EL0),
    ("PMEVCNTR14_EL0", R::PMEVCNTR14_EL0),
    ("PMEVCNTR15_EL0", R::PMEVCNTR15_EL0),
    ("PMEVCNTR16_EL0", R::PMEVCNTR16_EL0),
    ("PMEVCNTR17_EL0", R::PMEVCNTR17_EL0),
    ("PMEVCNTR18_EL0", R::PMEVCNTR18_EL0),
    ("PMEVCNTR19_EL0", R::PMEVCNTR19_EL0),
    ("PMEVCNTR20_EL0", R::PMEVCNTR20_EL0),
    ("PMEVCNTR21_EL0", R::PMEVCNTR21_EL0),
    ("PMEVCNTR22_EL0", R::PMEVCNTR22_EL0),
    ("PMEVCNTR23_EL0", R::PMEVCNTR23_EL0),
    ("PMEVCNTR24_EL0", R::PMEVCNTR24_EL0),
    ("PMEVCNTR25_EL0", R::PMEVCNTR25_EL0),
    ("PMEVCNTR26_EL0", R::PMEVCNTR26_EL0),
    ("PMEVCNTR27_EL0", R::PMEVCNTR27_EL0),
    ("PMEVCNTR28_EL0", R::PMEVCNTR28_EL0),
    ("PMEVCNTR29_EL0", R::PMEVCNTR29_EL0),
    ("PMEVCNTR30_EL0", R::PMEVCNTR30_EL0),
    ("PMEVTYPER0_EL0", R::PMEVTYPER0_EL0),
    ("PMEVTYPER1_EL0", R::PMEVTYPER1_EL0),
    ("PMEVTYPER2_EL0", R::PMEVTYPER2_EL0),
    ("PMEVTYPER3_EL0", R::PMEVTYPER3_EL0),
    ("PMEVTYPER4_EL0", R::PMEVTYPER4_EL0),
    ("PMEVTYPER5_EL0", R::PMEVTYPER5_EL0),
    ("PMEVTYPER6_EL0", R::PMEVTYPER6_EL0),
    ("PMEVTYPER7_EL0", R::PMEVTYPER7_EL0),
    ("PMEVTYPER8_EL0", R::PMEVTYPER8_EL0),
    ("PMEVTYPER9_EL0", R::PMEVTYPER9_EL0),
    ("PMEVTYPER10_EL0", R::PMEVTYPER10_EL0),
    ("PMEVTYPER11_EL0", R::PMEVTYPER11_EL0),
    ("PMEVTYPER12_EL0", R::PMEVTYPER12_EL0),
    ("PMEVTYPER13_EL0", R::PMEVTYPER13_EL0),
    ("PMEVTYPER14_EL0", R::PMEVTYPER14_EL0),
    ("PMEVTYPER15_EL0", R::PMEVTYPER15_EL0),
    ("PMEVTYPER16_EL0", R::PMEVTYPER16_EL0),
    ("PMEVTYPER17_EL0", R::PMEVTYPER17_EL0),
    ("PMEVTYPER18_EL0", R::PMEVTYPER18_EL0),
    ("PMEVTYPER19_EL0", R::PMEVTYPER19_EL0),
    ("PMEVTYPER20_EL0", R::PMEVTYPER20_EL0),
    ("PMEVTYPER21_EL0", R::PMEVTYPER21_EL0),
    ("PMEVTYPER22_EL0", R::PMEVTYPER22_EL0),
    ("PMEVTYPER23_EL0", R::PMEVTYPER23_EL0),
    ("PMEVTYPER24_EL0", R::PMEVTYPER24_EL0),
    ("PMEVTYPER25_EL0", R::PMEVTYPER25_EL0),
    ("PMEVTYPER26_EL0", R::PMEVTYPER26_EL0),
    ("PMEVTYPER27_EL0", R::PMEVTYPER27_EL0),
    ("PMEVTYPER28_EL0", R::PMEVTYPER28_EL0),
    ("PMEVTYPER29_EL0", R::PMEVTYPER29_EL0),
    ("PMEVTYPER30_EL0", R::PMEVTYPER30_EL0),
    ("PMCCFILTR_EL0", R::PMCCFILTR_EL0),
    ("VPIDR_EL2", R::VPIDR_EL2),
    ("VMPIDR_EL2", R::VMPIDR_EL2),
    ("SCTLR_EL2", R::SCTLR_EL2),
    ("ACTLR_EL2", R::ACTLR_EL2),
    ("HCR_EL2", R::HCR_EL2),
    ("MDCR_EL2", R::MDCR_EL2),
    ("CPTR_EL2", R::CPTR_EL2),
    ("HSTR_EL2", R::HSTR_EL2),
    ("HFGRTR_EL2", R::HFGRTR_EL2),
    ("HFGWTR_EL2", R::HFGWTR_EL2),
    ("HFGITR_EL2", R::HFGITR_EL2),
    ("HACR_EL2", R::HACR_EL2),
    ("ZCR_EL2", R::ZCR_EL2),
    ("TRFCR_EL2", R::TRFCR_EL2),
    ("HCRX_EL2", R::HCRX_EL2),
    ("SMPRIMAP_EL2", R::SMPRIMAP_EL2),
    ("SMCR_EL2", R::SMCR_EL2),
    ("SDER32_EL2", R::SDER32_EL2),
    ("TTBR0_EL2", R::TTBR0_EL2),
    ("TTBR1_EL2", R::TTBR1_EL2),
    ("TCR_EL2", R::TCR_EL2),
    ("VTTBR_EL2", R::VTTBR_EL2),
    ("VTCR_EL2", R::VTCR_EL2),
    ("VNCR_EL2", R::VNCR_EL2),
    ("VSTTBR_EL2", R::VSTTBR_EL2),
    ("VSTCR_EL2", R::VSTCR_EL2),
    ("DACR32_EL2", R::DACR32_EL2),
    ("HDFGRTR_EL2", R::HDFGRTR_EL2),
    ("HDFGWTR_EL2", R::HDFGWTR_EL2),
    ("HAFGRTR_EL2", R::HAFGRTR_EL2),
    ("SPSR_EL2", R::SPSR_EL2),
    ("ELR_EL2", R::ELR_EL2),
    ("SP_EL1", R::SP_EL1),
    ("SPSR_IRQ", R::SPSR_IRQ),
    ("SPSR_ABT", R::SPSR_ABT),
    ("SPSR_UND", R::SPSR_UND),
    ("SPSR_FIQ", R::SPSR_FIQ),
    ("IFSR32_EL2", R::IFSR32_EL2),
    ("AFSR0_EL2", R::AFSR0_EL2),
    ("AFSR1_EL2", R::AFSR1_EL2),
    ("ESR_EL2", R::ESR_EL2),
    ("VSESR_EL2", R::VSESR_EL2),
    ("FPEXC32_EL2", R::FPEXC32_EL2),
    ("TFSR_EL2", R::TFSR_EL2),
    ("FAR_EL2", R::FAR_EL2),
    ("HPFAR_EL2", R::HPFAR_EL2),
    ("PMSCR_EL2", R::PMSCR_EL2),
    ("MAIR_EL2", R::MAIR_EL2),
    ("AMAIR_EL2", R::AMAIR_EL2),
    ("MPAMHCR_EL2", R::MPAMHCR_EL2),
    ("MPAMVPMV_EL2", R::MPAMVPMV_EL2),
    ("MPAM2_EL2", R::MPAM2_EL2),
    ("MPAMVPM0_EL2", R::MPAMVPM0_EL2),
    ("MPAMVPM1_EL2", R::MPAMVPM1_EL2),
    ("MPAMVPM2_EL2", R::MPAMVPM2_EL2),
    ("MPAMVPM3_EL2", R::MPAMVPM3_EL2),
    ("MPAMVPM4_EL2", R::MPAMVPM4_EL2),
    ("MPAMVPM5_EL2", R::MPAMVPM5_EL2),
    ("MPAMVPM6_EL2", R::MPAMVPM6_EL2),
    ("MPAMVPM7_EL2", R::MPAMVPM7_EL2),
    ("VBAR_EL2", R::VBAR_EL2),
    ("RVBAR_EL2", R::RVBAR_EL2),
    ("RMR_EL2", R::RMR_EL2),
    ("VDISR_EL2", R::VDISR_EL2),
    ("ICH_AP0R0_EL2", R::ICH_AP0R0_EL2),
    ("ICH_AP0R1_EL2", R::ICH_AP0R1_EL2),
    ("ICH_AP0R2_EL2", R::ICH_AP0R2_EL2),
    ("ICH_AP0R3_EL2", R::ICH_AP0R3_EL2),
    ("ICH_AP1R0_EL2", R::ICH_AP1R0_EL2),
    ("ICH_AP1R1_EL2", R::ICH_AP1R1_EL2),
    ("ICH_AP1R2_EL2", R::ICH_AP1R2_EL2),
    ("ICH_AP1R3_EL2", R::ICH_AP1R3_EL2),
    ("ICC_SRE_EL2", R::ICC_SRE_EL2),
    ("ICH_HCR_EL2", R::ICH_HCR_EL2),
    ("ICH_VTR_EL2", R::ICH_VTR_EL2),
    ("ICH_MISR_EL2", R::ICH_MISR_EL2),
    ("ICH_EISR_EL2", R::ICH_EISR_EL2),
    ("ICH_ELRSR_EL2", R::ICH_ELRSR_EL2),
    ("ICH_VMCR_EL2", R::ICH_VMCR_EL2),
    ("ICH_LR0_EL2", R::ICH_LR0_EL2),
    ("ICH_LR1_EL2", R::ICH_LR1_EL2),
    ("ICH_LR2_EL2", R::ICH_LR2_EL2),
    ("ICH_LR3_EL2", R::ICH_LR3_EL2),
    ("ICH_LR4_EL2", R::ICH_LR4_EL2),
    ("ICH_LR5_EL2", R::ICH_LR5_EL2),
    ("ICH_LR6_EL2", R::ICH_LR6_EL2),
    ("ICH_LR7_EL2", R::ICH_LR7_EL2),
    ("ICH_LR8_EL2", R::ICH_LR8_EL2),
    ("ICH_LR9_EL2", R::ICH_LR9_EL2),
    ("ICH_LR10_EL2", R::ICH_LR10_EL2),
    ("ICH_LR11_EL2", R::ICH_LR11_EL2),
    ("ICH_LR12_EL2", R::ICH_LR12_EL2),
    ("ICH_LR13_EL2", R::ICH_LR13_EL2),
    ("ICH_LR14_EL2", R::ICH_LR14_EL2),
    ("ICH_LR15_EL2", R::ICH_LR15_EL2),
    ("CONTEXTIDR_EL2", R::CONTEXTIDR_EL2),
    ("TPIDR_EL2", R::TPIDR_EL2),
    ("SCXTNUM_EL2", R::SCXTNUM_EL2),
    ("AMEVCNTVOFF00_EL2", R::AMEVCNTVOFF00_EL2),
    ("AMEVCNTVOFF01_EL2", R::AMEVCNTVOFF01_EL2),
    ("AMEVCNTVOFF02_EL2", R::AMEVCNTVOFF02_EL2),
    ("AMEVCNTVOFF03_EL2", R::AMEVCNTVOFF03_EL2),
    ("AMEVCNTVOFF04_EL2", R::AMEVCNTVOFF04_EL2),
    ("AMEVCNTVOFF05_EL2", R::AMEVCNTVOFF05_EL2),
    ("AMEVCNTVOFF06_EL2", R::AMEVCNTVOFF06_EL2),
    ("AMEVCNTVOFF07_EL2", R::AMEVCNTVOFF07_EL2),
    ("AMEVCNTVOFF08_EL2", R::AMEVCNTVOFF08_EL2),
    ("AMEVCNTVOFF09_EL2", R::AMEVCNTVOFF09_EL2),
    ("AMEVCNTVOFF010_EL2", R::AMEVCNTVOFF010_EL2),
    ("AMEVCNTVOFF011_EL2", R::AMEVCNTVOFF011_EL2),
    ("AMEVCNTVOFF012_EL2", R::AMEVCNTVOFF012_EL2),
    ("AMEVCNTVOFF013_EL2", R::AMEVCNTVOFF013_EL2),
    ("AMEVCNTVOFF014_EL2", R::AMEVCNTVOFF014_EL2),
    ("AMEVCNTVOFF015_EL2", R::AMEVCNTVOFF015_EL2),
    ("AMEVCNTVOFF10_EL2", R::AMEVCNTVOFF10_EL2),
    ("AMEVCNTVOFF11_EL2", R::AMEVCNTVOFF11_EL2),
    ("AMEVCNTVOFF12_EL2", R::AMEVCNTVOFF12_EL2),
    ("AMEVCNTVOFF13_EL2", R::AMEVCNTVOFF13_EL2),
    ("AMEVCNTVOFF14_EL2", R::AMEVCNTVOFF14_EL2),
    ("AMEVCNTVOFF15_EL2", R::AMEVCNTVOFF15_EL2),
    ("AMEVCNTVOFF16_EL2", R::AMEVCNTVOFF16_EL2),
    ("AMEVCNTVOFF17_EL2", R::AMEVCNTVOFF17_EL2),
    ("AMEVCNTVOFF18_EL2", R::AMEVCNTVOFF18_EL2),
    ("AMEVCNTVOFF19_EL2", R::AMEVCNTVOFF19_EL2),
    ("AMEVCNTVOFF110_EL2", R::AMEVCNTVOFF110_EL2),
    ("AMEVCNTVOFF111_EL2", R::AMEVCNTVOFF111_EL2),
    ("AMEVCNTVOFF112_EL2", R::AMEVCNTVOFF112_EL2),
    ("AMEVCNTVOFF113_EL2", R::AMEVCNTVOFF113_EL2),
    ("AMEVCNTVOFF114_EL2", R::AMEVCNTVOFF114_EL2),
    ("AMEVCNTVOFF115_EL2", R::AMEVCNTVOFF115_EL2),
    ("CNTVOFF_EL2", R::CNTVOFF_EL2),
    ("CNTPOFF_EL2", R::CNTPOFF_EL2),
    ("CNTHCTL_EL2", R::CNTHCTL_EL2),
    ("CNTHP_TVAL_EL2", R::CNTHP_TVAL_EL2),
    ("CNTHP_CTL_EL2", R::CNTHP_CTL_EL2),
    ("CNTHP_CVAL_EL2", R::CNTHP_CVAL_EL2),
    ("CNTHV_TVAL_EL2", R::CNTHV_TVAL_EL2),
    ("CNTHV_CTL_EL2", R::CNTHV_CTL_EL2),
    ("CNTHV_CVAL_EL2", R::CNTHV_CVAL_EL2),
    ("CNTHVS_TVAL_EL2", R::CNTHVS_TVAL_EL2),
    ("CNTHVS_CTL_EL2", R::CNTHVS_CTL_EL2),
    ("CNTHVS_CVAL_EL2", R::CNTHVS_CVAL_EL2),
    ("CNTHPS_TVAL_EL2", R::CNTHPS_TVAL_EL2),
    ("CNTHPS_CTL_EL2", R::CNTHPS_CTL_EL2),
    ("CNTHPS_CVAL_EL2", R::CNTHPS_CVAL_EL2),
    ("SCTLR_EL3", R::SCTLR_EL3),
    ("ACTLR_EL3", R::ACTLR_EL3),
    ("SCR_EL3", R::SCR_EL3),
    ("SDER32_EL3", R::SDER32_EL3),
    ("CPTR_EL3", R::CPTR_EL3),
    ("ZCR_EL3", R::ZCR_EL3),
    ("SMCR_EL3", R::SMCR_EL3),
    ("MDCR_EL3", R::MDCR_EL3),
    ("TTBR0_EL3", R::TTBR0_EL3),
    ("TCR_EL3", R::TCR_EL3),
    ("GPTBR_EL3", R::GPTBR_EL3),
    ("GPCCR_EL3", R::GPCCR_EL3),
    ("SPSR_EL3", R::SPSR_EL3),
    ("ELR_EL3", R::ELR_EL3),
    ("SP_EL2", R::SP_EL2),
    ("AFSR0_EL3", R::AFSR0_EL3),
    ("AFSR1_EL3", R::AFSR1_EL3),
    ("ESR_EL3", R::ESR_EL3),
    ("TFSR_EL3", R::TFSR_EL3),
    ("FAR_EL3", R::FAR_EL3),
    ("MFAR_EL3", R::MFAR_EL3),
    ("MAIR_EL3", R::MAIR_EL3),
    ("AMAIR_EL3", R::AMAIR_EL3),
    ("MPAM3_EL3", R::MPAM3_EL3),
    ("VBAR_EL3", R::VBAR_EL3),
    ("RVBAR_EL3", R::RVBAR_EL3),
    ("RMR_EL3", R::RMR_EL3),
    ("ICC_CTLR_EL3", R::ICC_CTLR_EL3),
    ("ICC_SRE_EL3", R::ICC_SRE_EL3),
    ("ICC_IGRPEN1_EL3", R::ICC_IGRPEN1_EL3),
    ("TPIDR_EL3", R::TPIDR_EL3),
    ("SCXTNUM_EL3", R::SCXTNUM_EL3),
    ("CNTPS_TVAL_EL1", R::CNTPS_TVAL_EL1),
    ("CNTPS_CTL_EL1", R::CNTPS_CTL_EL1),
    ("CNTPS_CVAL_EL1", R::CNTPS_CVAL_EL1),
    ("OSDTRRX_EL1", R::OSDTRRX_EL1),
    ("DBGBVR0_EL1", R::DBGBVR0_EL1),
    ("DBGBCR0_EL1", R::DBGBCR0_EL1),
    ("DBGWVR0_EL1", R::DBGWVR0_EL1),
    ("DBGWCR0_EL1", R::DBGWCR0_EL1),
    ("DBGBVR1_EL1", R::DBGBVR1_EL1),
    ("DBGBCR1_EL1", R::DBGBCR1_EL1),
    ("DBGWVR1_EL1", R::DBGWVR1_EL1),
    ("DBGWCR1_EL1", R::DBGWCR1_EL1),
    ("MDCCINT_EL1", R::MDCCINT_EL1),
    ("MDSCR_EL1", R::MDSCR_EL1),
    ("DBGBVR2_EL1", R::DBGBVR2_EL1),
    ("DBGBCR2_EL1", R::DBGBCR2_EL1),
    ("DBGWVR2_EL1", R::DBGWVR2_EL1),
    ("DBGWCR2_EL1", R::DBGWCR2_EL1),
    ("OSDTRTX_EL1", R::OSDTRTX_EL1),
    ("DBGBVR3_EL1", R::DBGBVR3_EL1),
    ("DBGBCR3_EL1", R::DBGBCR3_EL1),
    ("DBGWVR3_EL1", R::DBGWVR3_EL1),
    ("DBGWCR3_EL1", R::DBGWCR3_EL1),
    ("DBGBVR4_EL1", R::DBGBVR4_EL1),
    ("DBGBCR4_EL1", R::DBGBCR4_EL1),
    ("DBGWVR4_EL1", R::DBGWVR4_EL1),
    ("DBGWCR4_EL1", R::DBGWCR4_EL1),
    ("DBGBVR5_EL1", R::DBGBVR5_EL1),
    ("DBGBCR5_EL1", R::DBGBCR5_EL1),
    ("DBGWVR5_EL1", R::DBGWVR5_EL1),
    ("DBGWCR5_EL1", R::DBGWCR5_EL1),
    ("OSECCR_EL1", R::OSECCR_EL1),
    ("DBGBVR6_EL1", R::DBGBVR6_EL1),
    ("DBGBCR6_EL1", R::DBGBCR6_EL1),
    ("DBGWVR6_EL1", R::DBGWVR6_EL1),
    ("DBGWCR6_EL1", R::DBGWCR6_EL1),
    ("DBGBVR7_EL1", R::DBGBVR7_EL1),
    ("DBGBCR7_EL1", R::DBGBCR7_EL1),
    ("DBGWVR7_EL1", R::DBGWVR7_EL1),
    ("DBGWCR7_EL1", R::DBGWCR7_EL1),
    ("DBGBVR8_EL1", R::DBGBVR8_EL1),
    ("DBGBCR8_EL1", R::DBGBCR8_EL1),
    ("DBGWVR8_EL1", R::DBGWVR8_EL1),
    ("DBGWCR8_EL1", R::DBGWCR8_EL1),
    ("DBGBVR9_EL1", R::DBGBVR9_EL1),
    ("DBGBCR9_EL1", R::DBGBCR9_EL1),
    ("DBGWVR9_EL1", R::DBGWVR9_EL1),
    ("DBGWCR9_EL1", R::DBGWCR9_EL1),
    ("DBGBVR10_EL1", R::DBGBVR10_EL1),
    ("DBGBCR10_EL1", R::DBGBCR10_EL1),
    ("DBGWVR10_EL1", R::DBGWVR10_EL1),
    ("DBGWCR10_EL1", R::DBGWCR10_EL1),
    ("DBGBVR11_EL1", R::DBGBVR11_EL1),
    ("DBGBCR11_EL1", R::DBGBCR11_EL1),
    ("DBGWVR11_EL1", R::DBGWVR11_EL1),
    ("DBGWCR11_EL1", R::DBGWCR11_EL1),
    ("DBGBVR12_EL1", R::DBGBVR12_EL1),
    ("DBGBCR12_EL1", R::DBGBCR12_EL1),
    ("DBGWVR12_EL1", R::DBGWVR12_EL1),
    ("DBGWCR12_EL1", R::DBGWCR12_EL1),
    ("DBGBVR13_EL1", R::DBGBVR13_EL1),
    ("DBGBCR13_EL1", R::DBGBCR13_EL1),
    ("DBGWVR13_EL1", R::DBGWVR13_EL1),
    ("DBGWCR13_EL1", R::DBGWCR13_EL1),
    ("DBGBVR14_EL1", R::DBGBVR14_EL1),
    ("DBGBCR14_EL1", R::DBGBCR14_EL1),
    ("DBGWVR14_EL1", R::DBGWVR14_EL1),
    ("DBGWCR14_EL1", R::DBGWCR14_EL1),
    ("DBGBVR15_EL1", R::DBGBVR15_EL1),
    ("DBGBCR15_EL1", R::DBGBCR15_EL1),
    ("DBGWVR15_EL1", R::DBGWVR15_EL1),
    ("DBGWCR15_EL1", R::DBGWCR15_EL1),
    ("MDRAR_EL1", R::MDRAR_EL1),
    ("OSLAR_EL1", R::OSLAR_EL1),
    ("OSLSR_EL1", R::OSLSR_EL1),
    ("OSDLR_EL1", R::OSDLR_EL1),
    ("DBGPRCR_EL1", R::DBGPRCR_EL1),
    ("DBGCLAIMSET_EL1", R::DBGCLAIMSET_EL1),
    ("DBGCLAIMCLR_EL1", R::DBGCLAIMCLR_EL1),
    ("DBGAUTHSTATUS_EL1", R::DBGAUTHSTATUS_EL1),
    ("TRCTRACEIDR", R::TRCTRACEIDR),
    ("TRCVICTLR", R::TRCVICTLR),
    ("TRCSEQEVR0", R::TRCSEQEVR0),
    ("TRCCNTRLDVR0", R::TRCCNTRLDVR0),
    ("TRCIDR8", R::TRCIDR8),
    ("TRCIMSPEC0", R::TRCIMSPEC0),
    ("TRCPRGCTLR", R::TRCPRGCTLR),
    ("TRCQCTLR", R::TRCQCTLR),
    ("TRCVIIECTLR", R::TRCVIIECTLR),
    ("TRCSEQEVR1", R::TRCSEQEVR1),
    ("TRCCNTRLDVR1", R::TRCCNTRLDVR1),
    ("TRCIDR9", R::TRCIDR9),
    ("TRCIMSPEC1", R::TRCIMSPEC1),
    ("TRCVISSCTLR", R::TRCVISSCTLR),
    ("TRCSEQEVR2", R::TRCSEQEVR2),
    ("TRCCNTRLDVR2", R::TRCCNTRLDVR2),
    ("TRCIDR10", R::TRCIDR10),
    ("TRCIMSPEC2", R::TRCIMSPEC2),
    ("TRCSTATR", R::TRCSTATR),
    ("TRCVIPCSSCTLR", R::TRCVIPCSSCTLR),
    ("TRCCNTRLDVR3", R::TRCCNTRLDVR3),
    ("TRCIDR11", R::TRCIDR11),
    ("TRCIMSPEC3", R::TRCIMSPEC3),
    ("TRCCONFIGR", R::TRCCONFIGR),
    ("TRCCNTCTLR0", R::TRCCNTCTLR0),
    ("TRCIDR12", R::TRCIDR12),
    ("TRCIMSPEC4", R::TRCIMSPEC4),
    ("TRCCNTCTLR1", R::TRCCNTCTLR1),
    ("TRCIDR13", R::TRCIDR13),
    ("TRCIMSPEC5", R::TRCIMSPEC5),
    ("TRCAUXCTLR", R::TRCAUXCTLR),
    ("TRCSEQRSTEVR", R::TRCSEQRSTEVR),
    ("TRCCNTCTLR2", R::TRCCNTCTLR2),
    ("TRCIMSPEC6", R::TRCIMSPEC6),
    ("TRCSEQSTR", R::TRCSEQSTR),
    ("TRCCNTCTLR3", R::TRCCNTCTLR3),
    ("TRCIMSPEC7", R::TRCIMSPEC7),
    ("TRCEVENTCTL0R", R::TRCEVENTCTL0R),
    ("TRCEXTINSELR0", R::TRCEXTINSELR0),
    ("TRCCNTVR0", R::TRCCNTVR0),
    ("TRCIDR0", R::TRCIDR0),
    ("TRCEVENTCTL1R", R::TRCEVENTCTL1R),
    ("TRCEXTINSELR1", R::TRCEXTINSELR1),
    ("TRCCNTVR1", R::TRCCNTVR1),
    ("TRCIDR1", R::TRCIDR1),
    ("TRCRSR", R::TRCRSR),
    ("TRCEXTINSELR2", R::TRCEXTINSELR2),
    ("TRCCNTVR2", R::TRCCNTVR2),
    ("TRCIDR2", R::TRCIDR2),
    ("TRCSTALLCTLR", R::TRCSTALLCTLR),
    ("TRCEXTINSELR3", R::TRCEXTINSELR3),
    ("TRCCNTVR3", R::TRCCNTVR3),
    ("TRCIDR3", R::TRCIDR3),
    ("TRCTSCTLR", R::TRCTSCTLR),
    ("TRCIDR4", R::TRCIDR4),
    ("TRCSYNCPR", R::TRCSYNCPR),
    ("TRCIDR5", R::TRCIDR5),
    ("TRCCCCTLR", R::TRCCCCTLR),
    ("TRCIDR6", R::TRCIDR6),
    ("TRCBBCTLR", R::TRCBBCTLR),
    ("TRCIDR7", R::TRCIDR7),
    ("TRCRSCTLR16", R::TRCRSCTLR16),
    ("TRCSSCCR0", R::TRCSSCCR0),
    ("TRCSSPCICR0", R::TRCSSPCICR0),
    ("TRCRSCTLR17", R::TRCRSCTLR17),
    ("TRCSSCCR1", R::TRCSSCCR1),
    ("TRCSSPCICR1", R::TRCSSPCICR1),
    ("TRCOSLSR", R::TRCOSLSR),
    ("TRCRSCTLR2", R::TRCRSCTLR2),
    ("TRCRSCTLR18", R::TRCRSCTLR18),
    ("TRCSSCCR2", R::TRCSSCCR2),
    ("TRCSSPCICR2", R::TRCSSPCICR2),
    ("TRCRSCTLR3", R::TRCRSCTLR3),
    ("TRCRSCTLR19", R::TRCRSCTLR19),
    ("TRCSSCCR3", R::TRCSSCCR3),
    ("TRCSSPCICR3", R::TRCSSPCICR3),
    ("TRCRSCTLR4", R::TRCRSCTLR4),
    ("TRCRSCTLR20", R::TRCRSCTLR20),
    ("TRCSSCCR4", R::TRCSSCCR4),
    ("TRCSSPCICR4", R::TRCSSPCICR4),
    ("TRCRSCTLR5", R::TRCRSCTLR5),
    ("TRCRSCTLR21", R::TRCRSCTLR21),
    ("TRCSSCCR5", R::TRCSSCCR5),
    ("TRCSSPCICR5", R::TRCSSPCICR5),
    ("TRCRSCTLR6", R::TRCRSCTLR6),
    ("TRCRSCTLR22", R::TRCRSCTLR22),
    ("TRCSSCCR6", R::TRCSSCCR6),
    ("TRCSSPCICR6", R::TRCSSPCICR6),
    ("TRCRSCTLR7", R::TRCRSCTLR7),
    ("TRCRSCTLR23", R::TRCRSCTLR23),
    ("TRCSSCCR7", R::TRCSSCCR7),
    ("TRCSSPCICR7", R::TRCSSPCICR7),
    ("TRCRSCTLR8", R::TRCRSCTLR8),
    ("TRCRSCTLR24", R::TRCRSCTLR24),
    ("TRCSSCSR0", R::TRCSSCSR0),
    ("TRCRSCTLR9", R::TRCRSCTLR9),
    ("TRCRSCTLR25", R::TRCRSCTLR25),
    ("TRCSSCSR1", R::TRCSSCSR1),
    ("TRCRSCTLR10", R::TRCRSCTLR10),
    ("TRCRSCTLR26", R::TRCRSCTLR26),
    ("TRCSSCSR2", R::TRCSSCSR2),
    ("TRCRSCTLR11", R::TRCRSCTLR11),
    ("TRCRSCTLR27", R::TRCRSCTLR27),
    ("TRCSSCSR3", R::TRCSSCSR3),
    ("TRCRSCTLR12", R::TRCRSCTLR12),
    ("TRCRSCTLR28", R::TRCRSCTLR28),
    ("TRCSSCSR4", R::TRCSSCSR4),
    ("TRCRSCTLR13", R::TRCRSCTLR13),
    ("TRCRSCTLR29", R::TRCRSCTLR29),
    ("TRCSSCSR5", R::TRCSSCSR5),
    ("TRCRSCTLR14", R::TRCRSCTLR14),
    ("TRCRSCTLR30", R::TRCRSCTLR30),
    ("TRCSSCSR6", R::TRCSSCSR6),
    ("TRCRSCTLR15", R::TRCRSCTLR15),
    ("TRCRSCTLR31", R::TRCRSCTLR31),
    ("TRCSSCSR7", R::TRCSSCSR7),
    ("TRCACVR0", R::TRCACVR0),
    ("TRCACVR8", R::TRCACVR8),
    ("TRCACATR0", R::TRCACATR0),
    ("TRCACATR8", R::TRCACATR8),
    ("TRCACVR1", R::TRCACVR1),
    ("TRCACVR9", R::TRCACVR9),
    ("TRCACATR1", R::TRCACATR1),
    ("TRCACATR9", R::TRCACATR9),
    ("TRCACVR2", R::TRCACVR2),
    ("TRCACVR10", R::TRCACVR10),
    ("TRCACATR2", R::TRCACATR2),
    ("TRCACATR10", R::TRCACATR10),
    ("TRCACVR3", R::TRCACVR3),
    ("TRCACVR11", R::TRCACVR11),
    ("TRCACATR3", R::TRCACATR3),
    ("TRCACATR11", R::TRCACATR11),
    ("TRCACVR4", R::TRCACVR4),
    ("TRCACVR12", R::TRCACVR12),
    ("TRCACATR4", R::TRCACATR4),
    ("TRCACATR12", R::TRCACATR12),
    ("TRCACVR5", R::TRCACVR5),
    ("TRCACVR13", R::TRCACVR13),
    ("TRCACATR5", R::TRCACATR5),
    ("TRCACATR13", R::TRCACATR13),
    ("TRCACVR6", R::TRCACVR6),
    ("TRCACVR14", R::TRCACVR14),
    ("TRCACATR6", R::TRCACATR6),
    ("TRCACATR14", R::TRCACATR14),
    ("TRCACVR7", R::TRCACVR7),
    ("TRCACVR15", R::TRCACVR15),
    ("TRCACATR7", R::TRCACATR7),
    ("TRCACATR15", R::TRCACATR15),
    ("TRCCIDCVR0", R::TRCCIDCVR0),
    ("TRCVMIDCVR0", R::TRCVMIDCVR0),
    ("TRCCIDCCTLR0", R::TRCCIDCCTLR0),
    ("TRCCIDCCTLR1", R::TRCCIDCCTLR1),
    ("TRCCIDCVR1", R::TRCCIDCVR1),
    ("TRCVMIDCVR1", R::TRCVMIDCVR1),
    ("TRCVMIDCCTLR0", R::TRCVMIDCCTLR0),
    ("TRCVMIDCCTLR1", R::TRCVMIDCCTLR1),
    ("TRCCIDCVR2", R::TRCCIDCVR2),
    ("TRCVMIDCVR2", R::TRCVMIDCVR2),
    ("TRCCIDCVR3", R::TRCCIDCVR3),
    ("TRCVMIDCVR3", R::TRCVMIDCVR3),
    ("TRCCIDCVR4", R::TRCCIDCVR4),
    ("TRCVMIDCVR4", R::TRCVMIDCVR4),
    ("TRCCIDCVR5", R::TRCCIDCVR5),
    ("TRCVMIDCVR5", R::TRCVMIDCVR5),
    ("TRCCIDCVR6", R::TRCCIDCVR6),
    ("TRCVMIDCVR6", R::TRCVMIDCVR6),
    ("TRCCIDCVR7", R::TRCCIDCVR7),
    ("TRCVMIDCVR7", R::TRCVMIDCVR7),
    ("TRCDEVID", R::TRCDEVID),
    ("TRCCLAIMSET", R::TRCCLAIMSET),
    ("TRCCLAIMCLR", R::TRCCLAIMCLR),
    ("TRCAUTHSTATUS", R::TRCAUTHSTATUS),
    ("TRCDEVARCH", R::TRCDEVARCH),
    ("BRBINF0_EL1", R::BRBINF0_EL1),
    ("BRBSRC0_EL1", R::BRBSRC0_EL1),
    ("BRBTGT0_EL1", R::BRBTGT0_EL1),
    ("BRBINF16_EL1", R::BRBINF16_EL1),
    ("BRBSRC16_EL1", R::BRBSRC16_EL1),
    ("BRBTGT16_EL1", R::BRBTGT16_EL1),
    ("BRBINF1_EL1", R::BRBINF1_EL1),
    ("BRBSRC1_EL1", R::BRBSRC1_EL1),
    ("BRBTGT1_EL1", R::BRBTGT1_EL1),
    ("BRBINF17_EL1", R::BRBINF17_EL1),
    ("BRBSRC17_EL1", R::BRBSRC17_EL1),
    ("BRBTGT17_EL1", R::BRBTGT17_EL1),
    ("BRBINF2_EL1", R::BRBINF2_EL1),
    ("BRBSRC2_EL1", R::BRBSRC2_EL1),
    ("BRBTGT2_EL1", R::BRBTGT2_EL1),
    ("BRBINF18_EL1", R::BRBINF18_EL1),
    ("BRBSRC18_EL1", R::BRBSRC18_EL1),
    ("BRBTGT18_EL1", R::BRBTGT18_EL1),
    ("BRBINF3_EL1", R::BRBINF3_EL1),
    ("BRBSRC3_EL1", R::BRBSRC3_EL1),
    ("BRBTGT3_EL1", R::BRBTGT3_EL1),
    ("BRBINF19_EL1", R::BRBINF19_EL1),
    ("BRBSRC19_EL1", R::BRBSRC19_EL1),
    ("BRBTGT19_EL1", R::BRBTGT19_EL1),
    ("BRBINF4_EL1", R::BRBINF4_EL1),
    ("BRBSRC4_EL1", R::BRBSRC4_EL1),
    ("BRBTGT4_EL1", R::BRBTGT4_EL1),
    ("BRBINF20_EL1", R::BRBINF20_EL1),
    ("BRBSRC20_EL1", R::BRBSRC20_EL1),
    ("BRBTGT20_EL1", R::BRBTGT20_EL1),
    ("BRBINF5_EL1", R::BRBINF5_EL1),
    ("BRBSRC5_EL1", R::BRBSRC5_EL1),
    ("BRBTGT5_EL1", R::BRBTGT5_EL1),
    ("BRBINF21_EL1", R::BRBINF21_EL1),
    ("BRBSRC21_EL1", R::BRBSRC21_EL1),
    ("BRBTGT21_EL1", R::BRBTGT21_EL1),
    ("BRBINF6_EL1", R::BRBINF6_EL1),
    ("BRBSRC6_EL1", R::BRBSRC6_EL1),
    ("BRBTGT6_EL1", R::BRBTGT6_EL1),
    ("BRBINF22_EL1", R::BRBINF22_EL1),
    ("BRBSRC22_EL1", R::BRBSRC22_EL1),
    ("BRBTGT22_EL1", R::BRBTGT22_EL1),
    ("BRBINF7_EL1", R::BRBINF7_EL1),
    ("BRBSRC7_EL1", R::BRBSRC7_EL1),
    ("BRBTGT7_EL1", R::BRBTGT7_EL1),
    ("BRBINF23_EL1", R::BRBINF23_EL1),
    ("BRBSRC23_EL1", R::BRBSRC23_EL1),
    ("BRBTGT23_EL1", R::BRBTGT23_EL1),
    ("BRBINF8_EL1", R::BRBINF8_EL1),
    ("BRBSRC8_EL1", R::BRBSRC8_EL1),
    ("BRBTGT8_EL1", R::BRBTGT8_EL1),
    ("BRBINF24_EL1", R::BRBINF24_EL1),
    ("BRBSRC24_EL1", R::BRBSRC24_EL1),
    ("BRBTGT24_EL1", R::BRBTGT24_EL1),
    ("BRBINF9_EL1", R::BRBINF9_EL1),
    ("BRBSRC9_EL1", R::BRBSRC9_EL1),
    ("BRBTGT9_EL1", R::BRBTGT9_EL1),
    ("BRBINF25_EL1", R::BRBINF25_EL1),
    ("BRBSRC25_EL1", R::BRBSRC25_EL1),
    ("BRBTGT25_EL1", R::BRBTGT25_EL1),
    ("BRBINF10_EL1", R::BRBINF10_EL1),
    ("BRBSRC10_EL1", R::BRBSRC10_EL1),
    ("BRBTGT10_EL1", R::BRBTGT10_EL1),
    ("BRBINF26_EL1", R::BRBINF26_EL1),
    ("BRBSRC26_EL1", R::BRBSRC26_EL1),
    ("BRBTGT26_EL1", R::BRBTGT26_EL1),
    ("BRBINF11_EL1", R::BRBINF11_EL1),
    ("BRBSRC11_EL1", R::BRBSRC11_EL1),
    ("BRBTGT11_EL1", R::BRBTGT11_EL1),
    ("BRBINF27_EL1", R::BRBINF27_EL1),
    ("BRBSRC27_EL1", R::BRBSRC27_EL1),
    ("BRBTGT27_EL1", R::BRBTGT27_EL1),
    ("BRBINF12_EL1", R::BRBINF12_EL1),
    ("BRBSRC12_EL1", R::BRBSRC12_EL1),
    ("BRBTGT12_EL1", R::BRBTGT12_EL1),
    ("BRBINF28_EL1", R::BRBINF28_EL1),
    ("BRBSRC28_EL1", R::BRBSRC28_EL1),
    ("BRBTGT28_EL1", R::BRBTGT28_EL1),
    ("BRBINF13_EL1", R::BRBINF13_EL1),
    ("BRBSRC13_EL1", R::BRBSRC13_EL1),
    ("BRBTGT13_EL1", R::BRBTGT13_EL1),
    ("BRBINF29_EL1", R::BRBINF29_EL1),
    ("BRBSRC29_EL1", R::BRBSRC29_EL1),
    ("BRBTGT29_EL1", R::BRBTGT29_EL1),
    ("BRBINF14_EL1", R::BRBINF14_EL1),
    ("BRBSRC14_EL1", R::BRBSRC14_EL1),
    ("BRBTGT14_EL1", R::BRBTGT14_EL1),
    ("BRBINF30_EL1", R::BRBINF30_EL1),
    ("BRBSRC30_EL1", R::BRBSRC30_EL1),
    ("BRBTGT30_EL1", R::BRBTGT30_EL1),
    ("BRBINF15_EL1", R::BRBINF15_EL1),
    ("BRBSRC15_EL1", R::BRBSRC15_EL1),
    ("BRBTGT15_EL1", R::BRBTGT15_EL1),
    ("BRBINF31_EL1", R::BRBINF31_EL1),
    ("BRBSRC31_EL1", R::BRBSRC31_EL1),
    ("BRBTGT31_EL1", R::BRBTGT31_EL1),
    ("BRBCR_EL1", R::BRBCR_EL1),
    ("BRBCR_EL2", R::BRBCR_EL2),
    ("BRBFCR_EL1", R::BRBFCR_EL1),
    ("BRBTS_EL1", R::BRBTS_EL1),
    ("BRBINFINJ_EL1", R::BRBINFINJ_EL1),
    ("BRBSRCINJ_EL1", R::BRBSRCINJ_EL1),
    ("BRBTGTINJ_EL1", R::BRBTGTINJ_EL1),
    ("BRBIDR0_EL1", R::BRBIDR0_EL1),
    ("MDCCSR_EL0", R::MDCCSR_EL0),
    ("DBGDTR_EL0", R::DBGDTR_EL0),
    ("DBGDTRRX_EL0", R::DBGDTRRX_EL0),
    ("DBGDTRTX_EL0", R::DBGDTRTX_EL0),
    ("DBGVCR32_EL2", R::DBGVCR32_EL2),
];
